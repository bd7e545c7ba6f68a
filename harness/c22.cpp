// C22: combinatorial, numeric, tree and index utilities.
#include "common/gen.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/algorithm.hpp>
#include <SeQuant/core/asy_cost.hpp>
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/complex.hpp>
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/rational.hpp>
#include <SeQuant/core/utility/conversion.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/core/utility/memoize.hpp>
#include <SeQuant/core/utility/permutation.hpp>
#include <SeQuant/core/utility/swap.hpp>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <thread>
using namespace vf;
using namespace sequant;
namespace {
std::string latex(const ExprPtr& e) { return narrow(e->to_latex()); }
template <class V> std::string str(const V& v) { std::ostringstream o; for (auto x : v) o << +x << " "; return o.str(); }
template <class V> int inversions(const V& v) { int n = 0; for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = i + 1; j < v.size(); ++j) n += v[j] < v[i]; return n; }

// ---------------------------------------------------------------- permutations
template <class T> void parity_case(Rng& r, Reporter& rep) {
  int n = r(sizeof(T) == 1 ? 40 : 12); std::vector<T> p(n); for (int i = 0; i < n; ++i) p[i] = (T)i;
  std::shuffle(p.begin(), p.end(), std::mt19937(r.next())); auto q = p; int want = inversions(p) % 2 ? -1 : 1;
  int got = permutation_parity(std::span<T>(q)); rep.count("parities");
  if (got != want) rep.violation("parity", "permutation_parity(" + str(p) + ") = " + std::to_string(got));
  if (q != p) rep.violation("parity-overwrites", "permutation_parity changed its argument " + str(p) + " into " + str(q));
  auto q2 = p; if (permutation_parity(std::span<T>(q2), true) != want) rep.violation("parity", "overwriting permutation_parity(" + str(p) + ")");
  rep.distinct("nontrivial", hstr(std::wstring(q.begin(), q.end())));
}
void combinatorics(Rng& r, Reporter& rep) {
  switch (r(3)) { case 0: parity_case<int>(r, rep); break; case 1: parity_case<std::size_t>(r, rep); break; default: parity_case<signed char>(r, rep); }
  // next_permutation_parity: visits every permutation of distinct values with the right parity
  {
    int n = r(7); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = 3 * i - 2;
    bool desc = r.chance(1, 3); if (desc) std::reverse(p.begin(), p.end());
    auto cmp = [desc](int a, int b) { return desc ? b < a : a < b; };
    int par = r(2), par0 = par; std::set<std::vector<int>> seen; auto base = p; long k = 0; bool more = true;
    auto inv = [&](const std::vector<int>& v) { int c = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) c += cmp(v[j], v[i]); return c; };
    while (more && k < 10000) {
      seen.insert(p); ++k;
      if (par % 2 != (par0 + inv(p)) % 2) { rep.violation("next-permutation-parity", "parity " + std::to_string(par) + " at " + str(p)); break; }
      auto prev = p; more = desc ? next_permutation_parity(par, p.begin(), p.end(), cmp) : r.chance(1, 2) ? next_permutation_parity(par, p.begin(), p.end(), cmp) : next_permutation_parity(par, p.begin(), p.end(), std::less<>{});
      if (more && !std::lexicographical_compare(prev.begin(), prev.end(), p.begin(), p.end(), cmp)) { rep.violation("next-permutation-order", str(p)); break; }
    }
    long f = 1; for (int i = 2; i <= n; ++i) f *= i;
    if ((long)seen.size() != f || k != f || p != base || par % 2 != par0 % 2) rep.violation("next-permutation-all", std::to_string(n) + " elements: " + std::to_string(k) + " steps, " + std::to_string(seen.size()) + " distinct");
    rep.count("permutations_walked", k);
  }
  // bubble sort: sorted, stable, and the swap counter knows the parity
  {
    int n = r(14), m = 1 + r(15); std::vector<std::pair<int, int>> v(n); for (int i = 0; i < n; ++i) v[i] = {r(m), i};
    std::vector<int> keys; for (auto& x : v) keys.push_back(x.first); int inv = inversions(keys);
    auto s = v; std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; });
    auto t = v; bubble_sort(t.begin(), t.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return a.first < b.first; });
    if (t != s) rep.violation("bubble-sort", str(keys));
    std::vector<SwapCountable<int>> c; for (int k : keys) c.emplace_back(k);
    reset_ts_swap_counter<int>(); bubble_sort(c.begin(), c.end()); bool even = ts_swap_counter_is_even<int>();
    bool sorted = true; for (int i = 1; i < n; ++i) sorted &= !((int)c[i] < (int)c[i - 1]);
    if (!sorted || even != (inv % 2 == 0)) rep.violation("swap-counter", str(keys) + (even ? "even" : "odd"));
    rep.count("sorted_sequences");
  }
  // subsets and bipartitions
  {
    u64 mask = r.next() & r.next() & r.next() & 0xfffff; if (std::popcount(mask) > 9) mask &= 0xff; unsigned m = (unsigned)mask; if (r.chance(1, 10)) m = 0;
    std::set<unsigned> want; for (unsigned s = m;; s = (s - 1) & m) { want.insert(s); if (!s) break; }
    auto tell = [&](const char* w) { rep.violation(std::string("subsets:") + w, "mask " + std::to_string(m)); };
    std::vector<std::pair<unsigned, unsigned>> o; for (auto&& [a, b] : bits::bipartitions_ordered(m)) o.emplace_back(a, b);
    std::set<unsigned> first; for (auto& [a, b] : o) { if ((a & b) || (a | b) != m) tell("cover"); first.insert(a); }
    if (o.size() != want.size() || first != want) tell("ordered");
    std::set<unsigned> half; std::size_t nh = 0; for (auto&& [a, b] : bits::bipartitions_unordered(m)) { if ((a & b) || (a | b) != m) tell("cover"); half.insert(std::min(a, b)); ++nh; }
    if (m && (nh != want.size() / 2 || half.size() != nh)) tell("unordered");
    std::vector<unsigned> up, down; for (auto x : bits::subsets_ascending(m)) up.push_back(x); for (auto x : bits::subsets_descending(m)) down.push_back(x);
    if (!std::equal(up.begin(), up.end(), want.begin(), want.end())) tell("ascending");
    if (!std::equal(down.begin(), down.end(), want.rbegin(), want.rend())) tell("descending");
    std::vector<int> on, wanton; for (auto i : bits::on_bits_index(m)) on.push_back((int)i); for (int i = 0; i < 32; ++i) if (m >> i & 1) wanton.push_back(i);
    if (on != wanton) tell("on-bits");
    std::vector<int> data(32); for (auto& x : data) x = r(100); std::vector<int> got, exp; for (auto x : bits::on_bits_index(m) | bits::sieve(data)) got.push_back(x); for (int i : wanton) exp.push_back(data[i]);
    if (got != exp) tell("sieve");
    rep.count("masks");
  }
  // loops of paired slots
  {
    int n = 1 + r(6); std::vector<int> s; for (int i = 0; i < n; ++i) { s.push_back(7 * i); s.push_back(7 * i); } std::shuffle(s.begin(), s.end(), std::mt19937(r.next()));
    std::vector<int> a(s.begin(), s.begin() + n), b(s.begin() + n, s.end());
    // walk the loops: column partner, then equal value
    std::vector<char> done(2 * n, 0); int loops = 0;
    for (int k = 0; k < 2 * n; ++k) if (!done[k]) { ++loops; int x = k; do { done[x] = 1; x = x < n ? x + n : x - n; done[x] = 1; for (int y = 0; y < 2 * n; ++y) if (y != x && s[y] == s[x]) { x = y; break; } } while (!done[x]); }
    if ((int)count_cycles(a, b) != loops) rep.violation("cycles", str(a) + "/ " + str(b) + ": " + std::to_string(count_cycles(a, b)) + " instead of " + std::to_string(loops));
    rep.count("loop_counts");
  }
}

// ---------------------------------------------------------------- numbers
rational frac(Rng& r) { return rational(r.range(-30, 30), 1 + r(12)); }
void numbers(Rng& r, Reporter& rep) {
  {
    double t; switch (r(6)) { case 0: t = r.range(-2000, 2000) / (double)(1 + r(300)); break; case 1: t = r.range(-1000000, 1000000) * 1e-5; break; case 2: t = std::ldexp((double)r.range(-1000, 1000), r.range(-8, 40)); break; case 3: t = r.range(-40, 40); break; case 4: t = r.range(-50, 50) + std::ldexp((double)r.range(-3, 3), -r(30)); break; default: t = std::sqrt((double)r(500)); }
    double eps = r.chance(1, 2) ? std::sqrt(DBL_EPSILON) : std::pow(10., -1 - r(9)); rational x(t), e(eps);
    if (to_rational(t, 0.) != x) rep.violation("to-rational-exact", std::to_string(t));
    try {
      rational q = r.chance(1, 3) && eps == std::sqrt(DBL_EPSILON) ? to_rational(t) : to_rational(t, eps); rep.count("rationalized");
      rational d = q < x ? x - q : q - x, slack = e * rational(1000001, 1000000) + rational(std::abs(t) * 4 * DBL_EPSILON);
      if (d > slack) rep.violation("to-rational", std::to_string(t) + " within " + std::to_string(eps) + ": " + sequant::to_string(q));
      rational tight = e * rational(999, 1000) - rational(std::abs(t) * 4 * DBL_EPSILON);
      if (tight > 0 && denominator(q) < 3000) for (int den = 1; den < denominator(q).convert_to<int>(); ++den) {   // a simpler fraction fits?
        rational y = x * den; auto f = numerator(y) / denominator(y); for (int k = -1; k <= 1; ++k) { rational c(f + k, den); rational dd = c < x ? x - c : c - x; if (dd < tight) { rep.violation("to-rational-simplest", std::to_string(t) + " within " + std::to_string(eps) + ": " + sequant::to_string(q) + " but " + sequant::to_string(c) + " fits"); den = 1 << 20; break; } }
      }
      rep.distinct("nontrivial", hstr(std::wstring(L"q") + sequant::to_wstring(q)));
    } catch (sequant::Exception&) { rep.count("not_rationalized"); double f = t - std::floor(t); if (f > 0.0021 && 1 - f > 0.0021 && eps > 1e-6) rep.violation("to-rational-gives-up", std::to_string(t) + " within " + std::to_string(eps)); }
  }
  {
    std::size_t n = r.chance(1, 10) ? r(300) : r(40); sequant::intmax_t want = 1; for (std::size_t i = 2; i <= n; ++i) want *= i;
    if (factorial(n) != want) rep.violation("factorial", std::to_string(n));
    std::size_t k = r(64); if (pow2(k) != (std::size_t{1} << k)) rep.violation("pow2", std::to_string(k));
  }
  {
    using C = Complex<rational>; C a(frac(r), frac(r)), b(frac(r), frac(r)); rational s = frac(r);
    auto is = [&](const C& c, const rational& re, const rational& im, const char* w) { if (!(c.real() == re && c.imag() == im)) rep.violation(std::string("complex:") + w, sequant::to_string(a.real()) + "," + sequant::to_string(a.imag()) + " " + w + " " + sequant::to_string(b.real()) + "," + sequant::to_string(b.imag())); };
    rational ar = a.real(), ai = a.imag(), br = b.real(), bi = b.imag();
    is(a + b, ar + br, ai + bi, "+"); is(a - b, ar - br, ai - bi, "-"); is(a * b, ar * br - ai * bi, ar * bi + ai * br, "*"); is(-a, -ar, -ai, "neg"); is(conj(a), ar, -ai, "conj");
    C c = a; c += b; is(c, ar + br, ai + bi, "+="); c = a; c -= b; is(c, ar - br, ai - bi, "-="); c = a; c *= b; is(c, ar * br - ai * bi, ar * bi + ai * br, "*=");
    c = a; c *= c; is(c, ar * ar - ai * ai, 2 * ar * ai, "self*="); c = a; c *= s; is(c, ar * s, ai * s, "*=s"); is(s * a, ar * s, ai * s, "s*"); is(a * s, ar * s, ai * s, "*s");
    if (!b.is_zero()) { C q = a / b; C p = q * b; is(p, ar, ai, "/"); C q2 = s / b; C p2 = q2 * b; is(p2, s, 0, "s/"); }
    if ((a == b) != (ar == br && ai == bi) || (a == a) != true || (a != b) == (a == b)) rep.violation("complex:==", "");
    C d(ar, ai); if (d == a && d.hash_value() != a.hash_value()) rep.violation("complex:hash", ""); rep.count("complex_pairs");
  }
  {   // text to number: the whole text or nothing
    std::string s; int kind = r(4), base = kind == 1 ? 2 + r(35) : 10; long v = kind == 3 ? r.range(-70000, 70000) : (long)r.next() >> r(64);
    std::string digits = "0123456789abcdefghijklmnopqrstuvwxyz"; unsigned long u = v < 0 ? 0ul - (unsigned long)v : v; do { s = digits[u % base] + s; u /= base; } while (u); if (v < 0) s = "-" + s;
    int mut = r(6); if (mut == 0) s += r.pick(std::vector<std::string>{" ", "x", ".", "-", "\t", "_"}); if (mut == 1) s = r.pick(std::vector<std::string>{" ", "+", "x", "--"}) + s; if (mut == 2 && r.chance(1, 3)) s = "";
    bool ok = mut > 2 || (mut == 2 && !s.empty()); if (mut == 0 && s.back() == 'x' && base > 33) ok = true, u = 1;
    std::wstring w(s.begin(), s.end());
    auto conv = [&]<class T>(T, const char* nm, bool wide) {
      bool fits = mut > 2 || (mut == 2 && !s.empty()) ? (v >= (long)std::numeric_limits<T>::min() && (std::is_same_v<T, long> || v <= (long)std::numeric_limits<T>::max())) : false;
      if (std::is_unsigned_v<T> && s.size() && s[0] == '-') fits = false;
      if (mut <= 1 && base > 33) return;   // 'x' is a digit
      try { T g = wide ? string_to<T>(std::wstring_view(w), base) : string_to<T>(std::string_view(s), base); rep.count("converted"); if (!fits || (long)g != v) rep.violation("string-to", "'" + s + "' base " + std::to_string(base) + " as " + nm + " gives " + std::to_string((long)g)); }
      catch (ConversionException&) { rep.count("refused"); if (fits) rep.violation("string-to-refuses", "'" + s + "' base " + std::to_string(base) + " as " + nm); }
    };
    bool wide = r.chance(1, 2); conv(int{}, "int", wide); conv(long{}, "long", !wide); conv(short{}, "short", wide); conv((unsigned char)0, "unsigned char", wide); conv(unsigned{}, "unsigned", wide);
    double x = r.range(-100000, 100000) / 8.; std::ostringstream o; o.precision(17); if (r.chance(1, 2)) o << std::scientific; o << x; std::string fs = o.str(); if (mut == 0) fs += " ";
    try { double g = string_to<double>(std::string_view(fs)); if (mut == 0 || g != x) rep.violation("string-to-double", fs); } catch (ConversionException&) { if (mut != 0) rep.violation("string-to-double-refuses", fs); }
    (void)ok;
  }
}

// ---------------------------------------------------------------- asymptotic costs
void asycost(Rng& r, Reporter& rep) {
  auto isr = get_default_context().index_space_registry(); std::vector<IndexSpace> sp{isr->retrieve(L"i"), isr->retrieve(L"a"), isr->retrieve(L"p")}; std::sort(sp.begin(), sp.end());
  using Key = std::array<int, 3>;
  struct Deg { bool operator()(const Key& a, const Key& b) const { int x = a[0] + a[1] + a[2], y = b[0] + b[1] + b[2]; if (x != y) return x < y; for (int k = 2; k >= 0; --k) if (a[k] != b[k]) return a[k] < b[k]; return false; } };
  using M = std::map<Key, rational, Deg>; struct P { AsyCost c; M m; };
  bool nonneg = r.chance(2, 3); int top = 1 + r(4);
  auto atom = [&] { Key k{r(top + 1), r(top + 1), r(top + 1)}; rational f = nonneg ? rational(1 + r(6), 1 + r(3)) : frac(r); AsyCost::ExponentMap em; for (int i = 0; i < 3; ++i) if (k[i] || r.chance(1, 4)) em.emplace(sp[i], k[i]); P p; p.c = AsyCost(em, f); if (f != 0 && (k[0] || k[1] || k[2])) p.m[k] = f; return p; };
  auto clean = [](M& m) { for (auto it = m.begin(); it != m.end();) it = it->second == 0 ? m.erase(it) : std::next(it); };
  std::vector<P> pool; for (int i = 0; i < 3; ++i) pool.push_back(atom()); pool.push_back({AsyCost::zero(), {}});
  std::ostringstream hist;
  for (int step = 0; step < 10; ++step) {
    P a = r.pick(pool), b = r.pick(pool), o; int op = r(nonneg ? 3 : 6); hist << op;
    switch (op) {
      case 0: o.c = a.c + b.c; o.m = a.m; for (auto& [k, f] : b.m) o.m[k] += f; break;
      case 1: o = atom(); break;
      case 2: { rational s = nonneg ? rational(r(5), 1 + r(4)) : frac(r); o.c = r.chance(1, 2) ? s * a.c : a.c * s; o.m = a.m; for (auto& kv : o.m) kv.second *= s; break; }
      case 3: o.c = a.c - b.c; o.m = a.m; for (auto& [k, f] : b.m) o.m[k] -= f; break;
      case 4: o.c = a.c; if (r.chance(1, 2)) { o.c += b.c; o.m = a.m; for (auto& [k, f] : b.m) o.m[k] += f; } else { o.c -= b.c; o.m = a.m; for (auto& [k, f] : b.m) o.m[k] -= f; } break;
      default: { rational s = frac(r); if (s == 0) s = 2; o.c = a.c / s; o.m = a.m; for (auto& kv : o.m) kv.second /= s; }
    }
    clean(o.m); pool.push_back(o);
  }
  AsyCost::ExtentMap ext{{sp[0], 2}, {sp[1], 5}, {sp[2], 7}}; const int e[3] = {2, 5, 7};
  auto cmp = [](const M& a, const M& b) { auto i = a.rbegin(), j = b.rbegin(); Deg d; for (;; ++i, ++j) { if (i == a.rend() && j == b.rend()) return 0; bool left = j == b.rend() || (i != a.rend() && d(j->first, i->first)), right = i == a.rend() || (j != b.rend() && d(i->first, j->first)); if (left) return i->second > 0 ? 1 : -1; if (right) return j->second > 0 ? -1 : 1; if (i->second != j->second) return i->second < j->second ? -1 : 1; } };
  for (auto& p : pool) {
    double want = 0, mag = 0; for (auto& [k, f] : p.m) { double t = f.convert_to<double>(); for (int i = 0; i < 3; ++i) t *= std::pow(e[i], k[i]); want += t; mag += std::abs(t); }
    if (std::abs(p.c.ops(ext) - want) > 1e-9 * (1 + mag)) rep.violation("cost-ops", p.c.text() + " -> " + std::to_string(p.c.ops(ext)) + " instead of " + std::to_string(want));
    if ((p.c == AsyCost::zero()) != p.m.empty()) rep.violation("cost-zero", p.c.text() + (p.m.empty() ? " should be zero" : " is not zero"));
    if (p.m.empty() != (p.c.text() == "0")) rep.violation("cost-text", p.c.text());
    long terms = 1; auto tx = p.c.text(); for (std::size_t at = 0; (at = tx.find(" + ", at)) != std::string::npos; ++at) ++terms; if (!p.m.empty() && terms != (long)p.m.size()) rep.violation("cost-text", tx);
    if (p.c > AsyCost::max() || p.c == AsyCost::max() || !(p.c < AsyCost::max())) { if (nonneg) rep.violation("cost-max", p.c.text()); }
    if (!p.m.empty()) rep.distinct("nontrivial", hstr(std::wstring(tx.begin(), tx.end())));
    for (auto& q : pool) {
      int want = cmp(p.m, q.m); rep.count("cost_pairs");
      bool lt = p.c < q.c, gt = p.c > q.c, eq = p.c == q.c, le = p.c <= q.c, ge = p.c >= q.c, ne = p.c != q.c;
      if (eq == ne || lt + gt + eq != 1 || le != (lt || eq) || ge != (gt || eq)) rep.violation("cost-order-consistency", p.c.text() + " ? " + q.c.text());
      if (eq != (want == 0)) rep.violation("cost-equality", p.c.text() + " vs " + q.c.text());
      if (nonneg && lt != (want < 0)) rep.violation("cost-order", p.c.text() + (lt ? " < " : " !< ") + q.c.text());
    }
  }
}

// ---------------------------------------------------------------- binary trees
struct MT { int v = 0; std::unique_ptr<MT> l, r; bool leaf() const { return !l; } };
std::unique_ptr<MT> copy(const MT& m) { auto o = std::make_unique<MT>(); o->v = m.v; if (m.l) { o->l = copy(*m.l); o->r = copy(*m.r); } return o; }
using Node = FullBinaryNode<int>;
Node build(const MT& m) { return m.leaf() ? Node(m.v) : Node(m.v, build(*m.l), build(*m.r)); }
std::unique_ptr<MT> random_tree(Rng& r, int n) { auto o = std::make_unique<MT>(); o->v = r(4); if (n > 1) { int k = 1 + r(n - 1); o->l = random_tree(r, k); o->r = random_tree(r, n - k); } return o; }
bool same(const MT& a, const MT& b) { return a.v == b.v && a.leaf() == b.leaf() && (a.leaf() || (same(*a.l, *b.l) && same(*a.r, *b.r))); }
std::string show(const MT& m) { return m.leaf() ? std::to_string(m.v) : std::to_string(m.v) + "(" + show(*m.l) + "," + show(*m.r) + ")"; }
std::string show(const Node& m) { return m.leaf() ? std::to_string(*m) : std::to_string(*m) + "(" + show(m.left()) + "," + show(m.right()) + ")"; }
bool agrees(const Node& n, const MT& m, const Node* parent, bool check_parent = true) {
  if (*n != m.v || n.leaf() != m.leaf()) return false;
  if (check_parent && (n.root() != (parent == nullptr) || (parent && &n.parent() != parent))) return false;
  return m.leaf() || (agrees(n.left(), *m.l, &n) && agrees(n.right(), *m.r, &n));
}
std::size_t size(const MT& m) { return m.leaf() ? 1 : 1 + size(*m.l) + size(*m.r); }
void walk(const MT& m, TreeTraversal order, int what, const std::function<bool(const MT&, TreeTraversal)>& f) {
  if (m.leaf()) { if (what != 1) f(m, TreeTraversal::Any); return; }
  auto at = [&](TreeTraversal t) { return (order & t) == t && what != 2 ? f(m, t) : true; };
  if (!at(TreeTraversal::PreOrder)) return; walk(*m.l, order, what, f);
  if (!at(TreeTraversal::InOrder)) return; walk(*m.r, order, what, f);
  at(TreeTraversal::PostOrder);
}
void trees(Rng& r, Reporter& rep) {
  auto m = random_tree(r, 1 + r(9)); Node n = build(*m);
  // a node somewhere in the tree and its model
  auto somewhere = [&](Node& a, MT& b) { Node* x = &a; MT* y = &b; while (!y->leaf() && r.chance(2, 3)) { bool left = r.chance(1, 2); x = left ? &x->left() : &x->right(); y = left ? y->l.get() : y->r.get(); } return std::pair<Node*, MT*>{x, y}; };
  std::string hist = show(*m);
  auto check = [&](const char* w) { rep.count("tree_states"); if (!agrees(n, *m, nullptr)) { rep.violation(std::string("tree:") + w, hist + ": " + show(n) + " instead of " + show(*m)); throw Discard{}; } };
  check("build"); rep.distinct("nontrivial", hstr(std::wstring(hist.begin(), hist.end())));
  for (int step = 0; step < 6; ++step) {
    auto [x, y] = somewhere(n, *m); hist += ";";
    switch (r(9)) {
      case 0: { Node c(*x); auto cm = copy(*y); if (!agrees(c, *cm, nullptr)) rep.violation("tree:copy", show(c)); check("copy"); hist += "copy"; break; }
      case 1: { auto nm = random_tree(r, 1 + r(4)); Node c = build(*nm); *x = c; auto t = copy(*nm); y->v = t->v; y->l = std::move(t->l); y->r = std::move(t->r); hist += "assign"; if (!agrees(c, *nm, nullptr)) rep.violation("tree:assign-source", ""); break; }
      case 2: { auto nm = random_tree(r, 1 + r(4)); *x = build(*nm); y->v = nm->v; y->l = std::move(nm->l); y->r = std::move(nm->r); hist += "move"; break; }
      case 3: { auto [x2, y2] = somewhere(*x, *y); hist += "subcopy"; auto t = copy(*y2); *x = std::as_const(*x2); y->v = t->v; auto ol = std::move(y->l), orr = std::move(y->r); y->l = std::move(t->l); y->r = std::move(t->r); break; }
      case 4: { if (y->leaf()) break; bool left = r.chance(1, 2); hist += "promote"; auto t = copy(left ? *y->l : *y->r); *x = std::move(left ? x->left() : x->right()); y->v = t->v; y->l = std::move(t->l); y->r = std::move(t->r); break; }
      case 5: { Node c(std::move(n)); hist += "moved"; if (!agrees(c, *m, nullptr)) rep.violation("tree:move", show(c)); n = std::move(c); break; }
      case 6: { int k = 1 + r(3); Node c = transform_node(*x, [k](int v) { return v + k; }); std::function<void(MT&)> add = [&](MT& t) { t.v += k; if (t.l) { add(*t.l); add(*t.r); } }; auto t = copy(*y); add(*t); hist += "transform"; if (!agrees(c, *t, nullptr)) rep.violation("tree:transform", hist + ": " + show(c) + " instead of " + show(*t)); break; }
      case 7: { auto m2 = r.chance(1, 2) ? copy(*y) : random_tree(r, 1 + r(4)); Node c = build(*m2); bool want = same(*y, *m2); hist += "equal"; bool got; try { got = *x == c; } catch (std::exception& e) { rep.violation("tree:equality-throws", show(*x) + " == " + show(c) + ": " + e.what()); break; } if (got != want) rep.violation("tree:equality", show(*x) + " == " + show(c)); break; }
      default: {
        TreeTraversal order = static_cast<TreeTraversal>(r(8)); int what = r(3); u64 salt = r.chance(1, 2) ? r.next() | 1 : 0; hist += "visit";
        std::vector<std::pair<int, int>> a, b; auto goes = [&](std::size_t at) { return !salt || (salt >> (at % 61) & 3) != 0; };
        if (order != TreeTraversal::None) walk(*y, order, what, [&](const MT& t, TreeTraversal c) { b.emplace_back(t.v, (int)c); return goes(b.size()); });
        auto rec = [&](const Node& t, TreeTraversal c) { a.emplace_back(*t, (int)c); return goes(a.size()); };
        try { if (what == 0) std::as_const(*x).visit(rec, order); else if (what == 1) x->visit_internal(rec, order); else std::as_const(*x).visit_leaf(rec, order); rep.count("traversals"); if (x != &n) rep.count("subtree_traversals"); }
        catch (std::exception& e) { rep.violation("tree:visit-throws", hist + ": " + e.what()); break; }
        if (a != b) { std::string t; for (auto& [v, c] : a) t += std::to_string(v) + ":" + std::to_string(c) + " "; t += "instead of "; for (auto& [v, c] : b) t += std::to_string(v) + ":" + std::to_string(c) + " "; rep.violation("tree:visit", hist + (x == &n ? "" : " (subtree)") + " order " + std::to_string((int)order) + " nodes " + std::to_string(what) + ": " + t); }
      }
    }
    if (n.size() != size(*m)) rep.violation("tree:size", show(n));
    check("history");
  }
  {   // folds
    int k = 1 + r(5); std::vector<Node> v; std::vector<int> d; for (int i = 0; i < k; ++i) { d.push_back(r(50)); v.push_back(Node(d.back())); }
    Node f = fold_left_to_node(v, [](int a, int b) { return a * 3 + b; }); std::unique_ptr<MT> acc; for (int i = 0; i < k; ++i) { auto t = std::make_unique<MT>(); t->v = d[i]; if (!acc) acc = std::move(t); else { auto u = std::make_unique<MT>(); u->v = acc->v * 3 + d[i]; u->l = std::move(acc); u->r = std::move(t); acc = std::move(u); } }
    if (!agrees(f, *acc, nullptr)) rep.violation("tree:fold", show(f) + " instead of " + show(*acc));
    struct B { int operator()(int x) const { return x; } int operator()(int a, int b) const { return a * 3 + b; } }; Node g(d, B{}); if (!agrees(g, *acc, nullptr)) rep.violation("tree:binarize", show(g));
  }
}

// ---------------------------------------------------------------- memoization
template <class K, class V, class Map> concept Memoizes = requires(Map& m, std::mutex& mx, std::condition_variable& cv, const K& k) { sequant::detail::memoize(m, mx, cv, k, [] { return V{}; }); };
template <class K, class V> using Memo = std::conditional_t<Memoizes<K, V, std::map<K, std::optional<V>>>, std::map<K, std::optional<V>>, container::map<K, std::optional<V>>>;
void memoized(Rng& r, Reporter& rep) {
  struct Val { int key; std::vector<int> data; };
  // whichever map the library's memoizer takes
  Memo<int, Val> cache; std::mutex mx; std::condition_variable cv;
  int nt = 1 + r(6), nk = 1 + r(25), per = 1 + r(30), bad = r.chance(1, 2) ? r(nk) : -1; u64 salt = r.next();
  std::vector<std::atomic<int>> computed(nk); std::vector<std::vector<std::pair<int, const Val*>>> got(nt); std::atomic<int> thrown{0}, wrong{0}; std::atomic<int> failures_left{bad < 0 ? 0 : 1 + r(3)}; int planned = failures_left;
  auto body = [&](int t) {
    Rng q(salt + t);
    for (int i = 0; i < per; ++i) {
      int k = q(nk);
      try {
        const Val& v = sequant::detail::memoize(cache, mx, cv, k, [&]() -> Val {
          if (q.chance(1, 3)) std::this_thread::yield();
          if (k == bad && failures_left.fetch_sub(1) > 0) throw std::runtime_error("no value");
          computed[k]++; return Val{k, std::vector<int>(20, k)}; });
        if (v.key != k) wrong++;
        got[t].push_back({k, &v});
      } catch (std::runtime_error&) { thrown++; }
    }
  };
  std::vector<std::thread> th; for (int t = 1; t < nt; ++t) th.emplace_back(body, t); body(0); for (auto& t : th) t.join();
  for (int k = 0; k < nk; ++k) { bool used = false; for (auto& g : got) for (auto& [kk, p] : g) used |= kk == k; if (used && computed[k] != 1) rep.violation("memoize-once", std::to_string(computed[k].load()) + " computations of one key"); rep.count("keys_memoized", used); }
  for (auto& g : got) for (auto& [k, p] : g) if (p->key != k || p->data != std::vector<int>(20, k)) wrong++;
  if (wrong) rep.violation("memoize-value", std::to_string(wrong.load()) + " wrong values, " + std::to_string(nt) + " threads");
  if (thrown > planned) rep.violation("memoize-exception", std::to_string(thrown.load()));
  rep.count("memoize_calls", nt * per); rep.count("failed_computations", thrown.load()); rep.distinct("nontrivial", salt);
}

// ---------------------------------------------------------------- index queries
std::string names(const std::vector<Index>& v) { std::string s; for (auto& i : v) s += narrow(i.full_label()) + " "; return s; }
bool same_set(std::vector<Index> a, std::vector<Index> b) { auto k = [](const Index& i) { return std::wstring(i.full_label()); }; std::multiset<std::wstring> x, y; for (auto& i : a) x.insert(k(i)); for (auto& i : b) y.insert(k(i)); return x == y; }
using Counts = std::map<std::wstring, std::array<int, 4>>;
void slots_of(const ExprPtr& e, Counts& c) {
  auto add = [&](const Index& i, int s) { c[std::wstring(i.full_label())][s]++; for (auto& p : i.proto_indices()) c[std::wstring(p.full_label())][3]++; };
  if (e->is<Tensor>()) { auto& t = e->as<Tensor>(); for (auto& i : t.bra()) if (i.nonnull()) add(i, 0); for (auto& i : t.ket()) if (i.nonnull()) add(i, 1); for (auto& i : t.aux()) add(i, 2); }
  else for (auto& x : *e) slots_of(x, c);
}
void indices(Rng& r, Reporter& rep) {
  GenParams gp; gp.aux_spaces = {L"x"}; gp.max_aux_dummies = 2; gp.proto = r.chance(1, 3); gp.allow_bksymm = r.chance(1, 3); gp.traces = r.chance(1, 4);
  Gen g(r, gp); Names nm; Ext e = g.externals(nm, r(3), r(3), r(2));
  ExprPtr x = r.chance(1, 3) ? g.nested(e, nm, 2) : g.network(e, nm); std::string text = latex(x);
  Counts want; slots_of(x, want); auto got = get_used_indices_with_counts(x); rep.count("counted");
  bool ok = got.size() == want.size(); for (auto& [i, c] : got) { auto it = want.find(std::wstring(i.full_label())); ok = ok && it != want.end() && c.bra == it->second[0] && c.ket == it->second[1] && c.aux == it->second[2] && c.proto == it->second[3] && c.total() == c.bra + c.ket + c.aux + c.proto; }
  if (!ok) rep.violation("used-indices", text);
  if (get_used_indices(x).size() != want.size()) rep.violation("used-indices", text);
  auto u = get_unique_indices(x); rep.distinct("nontrivial", hstr(std::wstring(text.begin(), text.end())));
  auto all = [](auto& u) { std::vector<Index> v(u.bra.begin(), u.bra.end()); v.insert(v.end(), u.ket.begin(), u.ket.end()); v.insert(v.end(), u.aux.begin(), u.aux.end()); return v; };
  if (x->is<Product>() || x->is<Tensor>()) {
    bool flat = true; for (auto& f : *x) flat &= !f->is<Sum>() && !f->is<Product>();
    if (flat) {   // slot of the only appearance
      std::vector<Index> w[3]; for (auto& [i, c] : got) if (c.nonproto() == 1) w[c.bra ? 0 : c.ket ? 1 : 2].push_back(i);
      if (!same_set(w[0], u.bra) || !same_set(w[1], u.ket) || !same_set(w[2], u.aux)) rep.violation("unique-indices", text + ": " + names(u.bra) + "; " + names(u.ket) + "; " + names(u.aux));
      rep.count("unique_checked");
    }
  }
  if (!same_set(all(u), e.all())) rep.violation("unique-indices-set", text + ": " + names(all(u)) + " instead of " + names(e.all()));
  auto groups = external_indices(x); std::vector<Index> fl; bool paired = true; std::size_t nb = 0, nk = 0;
  for (auto& gr : groups) { for (auto& s : gr) { fl.push_back(s.index()); if (s.slot_type() == SlotType::Bra) ++nb; if (s.slot_type() == SlotType::Ket) ++nk; } if (gr.size() == 2) paired &= gr[0].slot_type() == SlotType::Bra && gr[1].slot_type() == SlotType::Ket; else paired &= gr.size() == 1; }
  if (!x->is<Tensor>() && (!same_set(fl, e.all()) || !paired || nb != u.bra.size() || nk != u.ket.size())) rep.violation("external-indices", text + ": " + names(fl));
  // subsets of the factors
  if (x->is<Product>()) {
    std::vector<std::vector<Index>> f; for (auto& t : *x) if (t->is<Tensor>()) { std::vector<Index> v; for (auto& i : t->as<Tensor>().const_indices()) v.push_back(i); f.push_back(v); }
    int n = (int)f.size();
    if (n >= 1 && n <= 6) {
      auto key = [](const Index& i) { return std::wstring(i.full_label()); };
      std::set<std::wstring> ext; for (auto& i : e.all()) ext.insert(key(i));
      container::svector<Index> tix; for (auto& i : e.all()) tix.push_back(i);
      // some summed indices may be asked for as targets, too
      if (r.chance(1, 3)) for (auto& [i, c] : got) if (c.nonproto() > 1 && r.chance(1, 3)) { bool in = false; for (auto& t : f) for (auto& j : t) in |= key(j) == key(i); if (in) { tix.push_back(i); ext.insert(key(i)); } }
      auto counts = subset_index_counts(f); auto targets = subset_target_indices(f, tix);
      for (unsigned s = 1; s < (1u << n); ++s) {
        std::map<std::wstring, int> c, o; for (int k = 0; k < n; ++k) for (auto& i : f[k]) (s >> k & 1 ? c : o)[key(i)]++;
        bool good = counts[s].size() == c.size(); for (auto& [i, k] : counts[s]) good = good && (int)k == c[key(i)];
        if (!good) rep.violation("subset-counts", text + " subset " + std::to_string(s));
        std::set<std::wstring> w, h; for (auto& [i, k] : c) if (k == 1 || o.contains(i) || ext.contains(i) || std::popcount(s) == 1) w.insert(i);
        for (auto& i : targets[s]) h.insert(key(i));
        if (w != h) { std::string d; for (auto& i : w) d += narrow(i) + " "; d += "| got "; for (auto& i : h) d += narrow(i) + " "; d += "| externals "; for (auto& i : ext) d += narrow(i) + " "; rep.violation("subset-targets", text + " subset " + std::to_string(s) + ": " + d); break; }
        rep.count("subsets_checked");
      }
      // left to right
      using S = std::set<std::wstring>; std::vector<S> fs; for (auto& t : f) { S q; for (auto& i : t) q.insert(key(i)); fs.push_back(q); }
      auto ltr = left_to_right_binarization_indices<std::wstring, S>(fs, ext);
      for (int k = 0; k < n; ++k) {
        S im, ch; std::map<std::wstring, int> tot, acc; for (int j = 0; j < n; ++j) for (auto& i : fs[j]) { tot[i]++; if (j <= k) acc[i]++; }
        for (auto& [i, c] : acc) if (c < tot[i] || ext.contains(i)) im.insert(i); for (auto& i : fs[k]) if (tot[i] > 1 || ext.contains(i)) ch.insert(i);
        if (im != ltr.imed[k] || ch != ltr.children[k]) rep.violation("left-to-right", text + " step " + std::to_string(k));
      }
      // outer and inner indices
      for (auto& t : f) { auto tot = tot_indices(t); std::set<std::wstring> o, in, go, gi; for (auto& i : t) { if (i.has_proto_indices()) { in.insert(key(i)); for (auto& p : i.proto_indices()) o.insert(key(p)); } else o.insert(key(i)); } for (auto& i : tot.outer) go.insert(key(i)); for (auto& i : tot.inner) gi.insert(key(i)); if (o != go || in != gi || go.size() != tot.outer.size()) rep.violation("tot-indices", text); }
    }
  }
}

// ---------------------------------------------------------------- replacement of atoms
ExprPtr swap_atoms(const ExprPtr& e, const std::function<ExprPtr(const ExprPtr&)>& f) {
  if (e->is<Product>()) { auto p = std::make_shared<Product>(); p->scale(e->as<Product>().scalar()); for (auto& x : *e) p->append(1, swap_atoms(x, f), Product::Flatten::No); return p; }
  if (e->is<Sum>()) { std::vector<ExprPtr> v; for (auto& x : *e) v.push_back(swap_atoms(x, f)); return std::make_shared<Sum>(v.begin(), v.end()); }
  auto q = f(e); return q ? q : e->clone();
}
void replacement(Rng& r, Reporter& rep) {
  GenParams gp; gp.aux_spaces = {L"x"}; gp.n_labels = 2; Gen g(r, gp); Names nm; Ext e = g.externals(nm, r(3), r(3), r(2));
  ExprPtr x = r.chance(1, 2) ? g.nested(e, nm, 2) : g.network(e, nm); std::string text = latex(x);
  std::vector<ExprPtr> atoms; std::function<void(const ExprPtr&)> collect = [&](const ExprPtr& q) { if (q->is<Tensor>()) atoms.push_back(q); else for (auto& y : *q) collect(y); }; collect(x); if (atoms.empty()) throw Discard{};
  ExprPtr pick = r.pick(atoms); auto& t = pick->as<Tensor>(); bool loose = r.chance(1, 2);
  if (r.chance(1, 6)) { x = pick->clone(); text = latex(x); rep.count("bare_atoms"); }
  // target: the atom itself, or the same block with other names
  ExprPtr target = pick->clone(); std::map<std::wstring, Index> ren;
  if (loose) { Names other(50); container::map<Index, Index> m; for (auto& i : t.const_indices()) if (!m.contains(i)) m.emplace(i, other.fresh(std::wstring(i.space().base_key()))); target = transform_expr(pick, m); }
  auto& tt = target->as<Tensor>();
  // replacement: a tensor with the same slots in a different arrangement, possibly times a scalar and a contracted pair
  std::vector<Index> b(tt.bra().begin(), tt.bra().end()), k(tt.ket().begin(), tt.ket().end()), a(tt.aux().begin(), tt.aux().end()); if (r.chance(1, 2)) std::swap(b, k);
  ExprPtr repl = ex<Tensor>(L"R", bra(b), ket(k), aux(a)); int form = r(4);
  if (form == 1) repl = ex<Constant>(rational(2, 3)) * repl; if (form == 2 && x->is<Product>() && x->begin() != x->end() && std::all_of(x->begin(), x->end(), [](auto& q) { return q->template is<Tensor>(); })) repl = repl + ex<Constant>(2) * repl->clone(); if (form == 3) repl = ex<Variable>(L"v") * repl;
  auto block = [](const Tensor& u) { std::wstring s(u.label()); for (auto& i : u.const_indices()) s += L"," + std::wstring(i.space().base_key()); return s + std::to_wstring(u.bra_rank()) + std::to_wstring(u.ket_rank()) + std::to_wstring((int)u.symmetry()) + std::to_wstring((int)u.braket_symmetry()) + std::to_wstring((int)u.column_symmetry()); };
  auto matches = [&](const Expr& c, const Expr& d) { if (!loose) return c == d; return c.is<Tensor>() && d.is<Tensor>() && block(c.as<Tensor>()) == block(d.as<Tensor>()); };
  int hits = 0;
  auto model = swap_atoms(x, [&](const ExprPtr& c) -> ExprPtr {
    if (!matches(*c, *target)) return nullptr; ++hits; container::map<Index, Index> m; auto& ct = c->as<Tensor>(); auto ci = ct.const_indices(), ti = tt.const_indices(); auto i1 = ci.begin(); for (auto i2 = ti.begin(); i2 != ti.end(); ++i1, ++i2) if (*i1 != *i2) m[*i2] = *i1;
    return m.empty() ? repl->clone() : transform_expr(repl, m); });
  ExprPtr before = x->clone(), y = x->clone();
  if (loose) replace(y, target, repl, matches); else replace(y, target, repl);
  rep.count("replacements", hits); rep.distinct("nontrivial", hstr(std::wstring(text.begin(), text.end())));
  if (y->to_latex() != model->to_latex()) rep.violation(loose ? "replace-equivalent" : "replace", text + " with " + latex(target) + " -> " + latex(repl) + " gives " + latex((y)) + " instead of " + latex((model)));
  if (*x != *before) rep.violation("replace-shares", text);
  if (y->hash_value() != swap_atoms(y, [](const ExprPtr&) -> ExprPtr { return nullptr; })->hash_value()) rep.violation("replace-hash", text);
  // results keep their index order unless the set of externals changed
  std::vector<Index> rb(e.bra), rk(e.ket); std::shuffle(rb.begin(), rb.end(), std::mt19937(r.next())); std::shuffle(rk.begin(), rk.end(), std::mt19937(r.next()));
  if (x->is<Sum>() || x->is<Product>()) {
    ResultExpr res{Tensor(L"W", bra(rb), ket(rk), aux(e.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), x->clone()};
    if (loose) replace(res, target, repl, matches); else replace(res, target, repl);
    std::vector<Index> nb(res.bra().begin(), res.bra().end()), nk(res.ket().begin(), res.ket().end());
    std::vector<Index> both(nb); both.insert(both.end(), nk.begin(), nk.end()); for (auto& i : res.aux()) both.push_back(i);
    if (!same_set(both, e.all())) rep.violation("replace-result-indices", text + ": " + names(both) + " instead of " + names(e.all()));
    else if (same_set(nb, rb) && (nb != rb || nk != rk)) rep.violation("replace-result-order", text + ": " + names(nb) + "; " + names(nk) + " instead of " + names(rb) + "; " + names(rk));
    rep.count("results");
  }
}
}  // namespace
int main(int argc, char** argv) {
  setup_common(); setup_sr(); Suite s("C22");
  s.add("combinatorics", 4000, 400000, [](Rng& r, long, Reporter& rep) { combinatorics(r, rep); });
  s.add("numbers", 6000, 600000, [](Rng& r, long, Reporter& rep) { numbers(r, rep); });
  s.add("asycost", 3000, 200000, [](Rng& r, long, Reporter& rep) { asycost(r, rep); });
  s.add("trees", 8000, 800000, [](Rng& r, long, Reporter& rep) { trees(r, rep); });
  s.add("memoize", 1500, 60000, [](Rng& r, long, Reporter& rep) { memoized(r, rep); });
  s.add("indices", 6000, 400000, [](Rng& r, long, Reporter& rep) { indices(r, rep); });
  s.add("replace", 4000, 300000, [](Rng& r, long, Reporter& rep) { replacement(r, rep); });
  return s.main(argc, argv);
}
