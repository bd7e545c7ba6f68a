// C04: expressions stay coherent (value, hash, equality, order, ownership) under every history of public operations.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/expressions/power.hpp>
#include <SeQuant/core/op.hpp>
#include <iostream>
using namespace vf;
using namespace sequant;
namespace {
using Sc = Constant::scalar_type;
using Mono = std::vector<std::string>;
using Poly = std::map<Mono, Z>;     // non-commutative polynomial over atoms: the reference semantics
std::map<std::string, std::string> g_adj;

Poly pconst(const Z& c) { Poly p; if (!c.zero()) p[{}] = c; return p; }
Poly pconst(const Sc& c) { return pconst(to_Z(c)); }
void padd(Poly& p, const Poly& q, const Z& s = Z(1)) { for (auto& [m, c] : q) { auto& x = p[m]; x += s * c; if (x.zero()) p.erase(m); } }
Poly pmul(const Poly& a, const Poly& b) { Poly r; if (a.size() * b.size() > 400) throw Discard{}; for (auto& [m, c] : a) for (auto& [n, d] : b) { Mono k = m; k.insert(k.end(), n.begin(), n.end()); if (k.size() > 12) throw Discard{}; auto& x = r[k]; x += c * d; if (x.zero()) r.erase(k); } return r; }
Poly padj(const Poly& a) { Poly r; for (auto& [m, c] : a) { Mono k; for (auto it = m.rbegin(); it != m.rend(); ++it) k.push_back(g_adj.at(*it)); r[k] += c.conj(); } return r; }
Poly poly(const ExprPtr& e) {
  if (e->is<Constant>()) return pconst(e->as<Constant>().value());
  if (e->is<Sum>()) { Poly p; for (auto& s : e->as<Sum>().summands()) padd(p, poly(s)); return p; }
  if (e->is<Product>()) { Poly p = pconst(e->as<Product>().scalar()); for (auto& f : e->as<Product>().factors()) p = pmul(p, poly(f)); return p; }
  if (e->is<Power>()) {
    auto& w = e->as<Power>(); auto n = w.exponent(); Z b;
    if (n == 1) { auto c = w.base()->clone(); if (w.conjugated()) c->adjoint(); return poly(c); }
    if (n == 0) return pconst(Z(1));
    if (w.base()->is<Constant>()) {
      Z v = to_Z(w.base()->as<Constant>().value()); if (w.conjugated()) v = v.conj();
      if (denominator(n) == 1) return pconst(v.pow((i64)numerator(n)));
      for (i64 q = 1; q <= 3; ++q) if (v == Z(q * q)) return pconst(Z(q).pow((i64)numerator(n)));
    }
  }
  auto t = vf::show(e);
  if (!g_adj.count(t)) { auto a = e->clone(); a->adjoint(); auto u = vf::show(a); g_adj[t] = u; g_adj[u] = t; }
  return Poly{{Mono{t}, Z(1)}};
}
std::string show(const Poly& p) { std::string r; for (auto& [m, c] : p) { r += c.str() + "*"; for (auto& x : m) r += "<" + x + ">"; r += "  "; } return r.empty() ? "0" : r; }

// rebuilt from scratch through public constructors and accessors: never a memoized hash
ExprPtr rebuild(const ExprPtr& e) {
  if (e->is<Constant>()) return ex<Constant>(e->as<Constant>().value());
  if (e->is<Variable>()) { auto v = ex<Variable>(std::wstring(e->as<Variable>().label())); if (e->as<Variable>().conjugated()) v->as<Variable>().conjugate(); return v; }
  if (e->is<Power>()) { auto& p = e->as<Power>(); auto r = ex<Power>(rebuild(p.base()), p.exponent()); if (p.conjugated()) r->as<Power>().conjugate(); return r; }
  if (e->is<Sum>()) { auto s = std::make_shared<Sum>(); for (auto& x : e->as<Sum>().summands()) s->append(rebuild(x)); return s; }
  if (e->is<Product>()) { auto s = std::make_shared<Product>(); for (auto& x : e->as<Product>().factors()) s->append(1, rebuild(x), Product::Flatten::No); s->scale(e->as<Product>().scalar()); return s; }
  if (e->is<Tensor>()) { auto& t = e->as<Tensor>(); return ex<Tensor>(t.label(), bra(t.bra().value()), ket(t.ket().value()), aux(t.aux().value()), t.symmetry(), t.hermiticity(), t.column_symmetry()); }
  if (e->is<FNOperator>()) { auto& o = e->as<FNOperator>(); std::vector<Index> c, a; for (auto& x : o.creators()) c.push_back(x.index()); for (auto& x : o.annihilators()) a.push_back(x.index()); return ex<FNOperator>(cre(c), ann(a), o.vacuum()); }
  throw std::logic_error("rebuild");
}
// nodes of a tree
void nodes(const ExprPtr& e, std::set<const Expr*>& s) { s.insert(e.get()); if (e->is<Sum>()) for (auto& x : e->as<Sum>().summands()) nodes(x, s); else if (e->is<Product>()) for (auto& x : e->as<Product>().factors()) nodes(x, s); }
bool strict_shape(const ExprPtr& e) {  // a sum holding zero/sum/several constants is legal only transiently
  if (e->is<Sum>()) { int nc = 0; for (auto& x : e->as<Sum>().summands()) { if (x->is<Sum>() || x->is_zero() || (x->is<Constant>() && nc++) || !strict_shape(x)) return false; } }
  else if (e->is<Product>()) for (auto& x : e->as<Product>().factors()) if (x->is<Constant>() || !strict_shape(x)) return false;
  return true;
}

struct Live { ExprPtr e; Poly p; };

struct World {
  Rng& r; Reporter& rep; bool ops; std::vector<Live> pool; std::string log;
  std::vector<std::wstring> vars{L"x", L"y", L"z"};
  Index idx() { static const wchar_t* sp[] = {L"i", L"a", L"p"}; return Index(std::wstring(sp[r(3)]) + L"_" + std::to_wstring(r.range(1, 3))); }
  std::vector<Index> some(int k) { std::vector<Index> v; while ((int)v.size() < k) { auto i = idx(); bool dup = false; for (auto& j : v) dup |= j == i; if (!dup) v.push_back(i); } return v; }
  Sc scalar() { Sc s(rational(r.range(-3, 3), r.range(1, 3)), r.chance(1, 4) ? rational(r.range(-2, 2)) : rational(0)); return s; }
  ExprPtr atom() {
    int k = r(ops ? 8 : 7);
    if (k <= 1) return ex<Constant>(scalar());
    if (k == 2) return ex<Variable>(r.pick(vars));
    if (k == 3) return r.chance(1, 2) ? ex<Power>(r.pick(vars), rational(r.range(-2, 3))) : ex<Power>(rational(r.range(1, 3)), rational(r.range(-2, 3), r.range(1, 2)));
    if (k == 7) { int c = r.range(0, 2), a = r.range(c ? 0 : 1, 2); return ex<FNOperator>(cre(some(c)), ann(some(a)), Vacuum::SingleProduct); }
    int n = r.range(1, 2), m = r.range(0, 2), x = r.chance(1, 4);
    auto lab = r.chance(1, 2) ? L"t" : L"g";
    auto sym = Symmetry::Nonsymm; auto cs = ColumnSymmetry::Nonsymm; auto h = Hermiticity::NonHermitian;
    int q = r(4); if (q == 1 && m == n) { sym = Symmetry::Antisymm; cs = ColumnSymmetry::Symm; } if (q == 2 && m == n) cs = ColumnSymmetry::Symm;
    if (m == n && r.chance(1, 4)) h = Hermiticity::Hermitian;
    return ex<Tensor>(lab, bra(some(n)), ket(some(m)), aux(some(x)), sym, h, cs);
  }
  void add(ExprPtr e, Poly p) { if (pool.size() < 6) pool.push_back({e, p}); else pool[r(6)] = {e, p}; }
  void check(const char* op) {
    for (size_t k = 0; k < pool.size(); ++k) {
      auto& l = pool[k];
      auto fail = [&](const std::string& sig, const std::string& d) { rep.violation(sig + ":" + op, d + "\n  expression " + vf::show(l.e) + "\n  history " + log); throw Discard{}; };
      rep.count("states_checked");
      Poly now = poly(l.e);
      if (now != l.p) fail("value", "expected " + show(l.p) + "\n  found    " + show(now));
      Expr::hash_type h;
      try { h = l.e->hash_value(); } catch (std::exception& x) { fail("stale-hash", std::string("hash_value() throws: ") + x.what()); }
      auto f = rebuild(l.e);
      try {
        if (poly(l.e->clone()) != l.p) fail("clone-value", "clone has another value");
        if (!strict_shape(l.e)) { rep.count("transient_shapes"); continue; }   // not reproducible by construction
        if (h != f->hash_value()) fail("hash", "hash differs from that of an identical fresh expression");
        if (!(*l.e == *f) || !(*f == *l.e)) fail("equality", "not equal to an identical fresh expression " + vf::show(f));
        auto c = l.e->clone();
        if (!(*l.e == *c) || !(*c == *l.e) || c->hash_value() != h) fail("clone", "clone differs: " + vf::show(c));
        std::set<const Expr*> a, b; nodes(l.e, a); nodes(c, b);
        for (auto x : b) if (a.count(x)) fail("clone-shares", "clone shares a node");
      } catch (Discard&) { throw; } catch (std::exception& x) { fail("throws", std::string("comparison throws: ") + x.what()); }
    }
    for (size_t a = 0; a < pool.size(); ++a) for (size_t b = 0; b < pool.size(); ++b) {
      bool same = vf::show(pool[a].e) == vf::show(pool[b].e);
      bool eq = *pool[a].e == *pool[b].e;
      rep.count("pairs_compared");
      if (eq && pool[a].p != pool[b].p) { rep.violation("equal-different", "expressions with different values compare equal: " + vf::show(pool[a].e) + " , " + vf::show(pool[b].e) + "\n  history " + log); throw Discard{}; }
      if (eq && pool[a].e->hash_value() != pool[b].e->hash_value()) { rep.violation("equal-hash", "equal expressions with different hashes"); throw Discard{}; }
      if (eq != (*pool[b].e == *pool[a].e)) { rep.violation("asymmetric-equality", vf::show(pool[a].e) + " , " + vf::show(pool[b].e)); throw Discard{}; }
      (void)same;
    }
  }
};
struct Step { const char* name; };

ExprPtr pick_tree(World& w, int depth) {
  auto& r = w.r;
  if (depth == 0 || r.chance(1, 3)) return w.atom();
  int k = r.range(1, 3);
  if (r.chance(1, 2)) { auto p = std::make_shared<Product>(); p->scale(w.scalar()); for (int i = 0; i < k; ++i) p->append(1, pick_tree(w, depth - 1), r.chance(1, 2) ? Product::Flatten::No : Product::Flatten::Yes); return p; }
  auto s = std::make_shared<Sum>(); for (int i = 0; i < k; ++i) s->append(pick_tree(w, depth - 1)); return s;
}

void history(Rng& r, Reporter& rep, bool ops) {
  World w{r, rep, ops};
  g_adj.clear();
  auto& pool = w.pool; pool.reserve(16);
  for (int i = 0; i < 3; ++i) { auto e = pick_tree(w, 2); pool.push_back({e, poly(e)}); w.log += "\n    e" + std::to_string(i) + " = " + vf::show(e); }
  int steps = r.range(3, 9);
  for (int s = 0; s < steps; ++s) {
    // touching the hash before a mutation is what exposes stale memoization
    for (auto& l : pool) if (r.chance(2, 3)) (void)l.e->hash_value();
    int ai = r((int)pool.size()), bi = r((int)pool.size()); if (ai == bi) bi = (ai + 1) % (int)pool.size();
    Live &A = pool[ai], &B = pool[bi];
    auto mono = [&](const char* n) { w.log += std::string("\n    ") + n + "(e" + std::to_string(ai) + ",e" + std::to_string(bi) + ")"; rep.count(std::string("op:") + n); };
    const char* op = "?";
    auto flat = std::array{Product::Flatten::No, Product::Flatten::Once, Product::Flatten::Yes}[r(3)];
    try {
      switch (r(25)) {
        case 0: mono(op = "operator*"); { auto p = pmul(A.p, B.p); w.add(A.e * B.e, p); } break;
        case 1: mono(op = "operator+"); { auto p = A.p; padd(p, B.p); w.add(A.e + B.e, p); } break;
        case 2: mono(op = "operator-"); { auto p = A.p; padd(p, B.p, Z(-1)); w.add(A.e - B.e, p); } break;
        case 3: mono(op = "ExprPtr+="); { auto p = A.p; padd(p, B.p); A.e += B.e; A.p = p; } break;
        case 4: mono(op = "ExprPtr-="); { auto p = A.p; padd(p, B.p, Z(-1)); A.e -= B.e; A.p = p; } break;
        case 5: mono(op = "ExprPtr*="); { auto p = pmul(A.p, B.p); A.e *= B.e; A.p = p; } break;
        case 6: mono(op = "adjoint"); { A.p = padj(A.p); A.e->adjoint(); } break;
        case 7: mono(op = "adjoint-copy"); { w.add(sequant::adjoint(A.e), padj(A.p)); } break;
        case 8: mono(op = "append"); { if (!A.e->is<Product>()) continue; auto c = w.scalar(); auto p = pmul(pmul(pconst(c), A.p), B.p); A.e->as<Product>().append(c, B.e, flat); A.p = p; } break;
        case 9: mono(op = "prepend"); { if (!A.e->is<Product>()) continue; auto c = w.scalar(); auto p = pmul(pmul(pconst(c), B.p), A.p); A.e->as<Product>().prepend(c, B.e, flat); A.p = p; } break;
        case 10: mono(op = "scale"); { if (!A.e->is<Product>()) continue; auto c = w.scalar(); A.p = pmul(pconst(c), A.p); A.e->as<Product>().scale(c); } break;
        case 11: mono(op = "sum-append"); { if (!A.e->is<Sum>()) continue; auto p = A.p; padd(p, B.p); A.e->as<Sum>().append(B.e); A.p = p; } break;
        case 12: mono(op = "sum-prepend"); { if (!A.e->is<Sum>()) continue; auto p = A.p; padd(p, B.p); A.e->as<Sum>().prepend(B.e); A.p = p; } break;
        case 13: mono(op = "replace-child"); {   // through the mutable container interface of Expr
          if (A.e->is_atom() || ai == bi) continue; int n = (int)A.e->size(), k = r(n); ExprPtr c = B.e->clone();
          if (A.e->is<Sum>() && (c->is<Constant>() || std::as_const(*A.e)[k]->is<Constant>())) continue;   // Sum tracks its constant
          if (r.chance(1, 2)) (*A.e)[k] = c; else { auto it = A.e->begin(); for (int q = 0; q < k; ++q) ++it; *it = c; }
          A.p = poly(A.e); } break;
        case 14: mono(op = "mutate-leaf"); {    // descends through mutable iterators and changes one leaf in place
          if (A.e->is_atom()) continue; ExprPtr c = A.e; std::vector<ExprPtr> path;
          while (!c->is_atom()) { auto it = c->begin(); int k = r((int)c->size()); for (int q = 0; q < k; ++q) ++it; c = *it; }
          if (c->is<Variable>()) { if (r.chance(1, 2)) c->as<Variable>().set_label(L"w"); else c->as<Variable>().conjugate(); }
          else if (c->is<Tensor>()) {
            auto& t = c->as<Tensor>(); int q = r(3);
            if (q == 0) t.set_label(L"u"); else if (q == 1) t.adjoint();
            else { container::map<Index, Index> m; for (auto& i : t.const_indices()) { m[i] = Index(std::wstring(i.space().base_key()) + L"_" + std::to_wstring(*i.ordinal() + 4)); } t.transform_indices(m); t.reset_tags(); }
          } else if (c->is<Power>()) c->as<Power>().conjugate();
          else c->adjoint();
          A.p = poly(A.e); } break;
        case 15: mono(op = "operator/"); { int d = r.range(1, 5); auto p = pmul(A.p, pconst(Z(d).inv())); w.add(A.e / int(d), p); } break;
        case 16: mono(op = "add_identical"); { if (!A.e->is<Product>() || !strict_shape(A.e)) continue; auto c = A.e->clone(); c->as<Product>().scale(Sc(2)); auto p = A.p; padd(p, A.p, Z(2)); A.e->as<Product>().add_identical(c); A.p = p; } break;
        case 17: mono(op = "flatten"); { sequant::flatten(A.e); } break;
        case 18: mono(op = "take_n"); { if (!A.e->is<Sum>()) continue; auto& sm = A.e->as<Sum>(); int o = r((int)sm.size() + 1), n = r((int)sm.size() + 1); Poly p, q; for (size_t k = 0; k < sm.size(); ++k) { if ((int)k < n) padd(p, poly(sm.summand(k))); if ((int)k >= o && (int)k < o + n) padd(q, poly(sm.summand(k))); } auto t1 = sm.take_n(n), t2 = sm.take_n(o, n); w.add(t1, p); w.add(t2, q); } break;
        case 19: mono(op = "operator^"); { auto p = pmul(A.p, B.p); w.add(A.e ^ B.e, p); } break;
        case 20: mono(op = "Expr*="); { if (A.e->is<Product>() || (A.e->is<Constant>() && B.e->is<Constant>())) { auto p = pmul(A.p, B.p); *A.e *= *B.e; A.p = p; } else continue; } break;
        case 21: mono(op = "Expr+="); { if (A.e->is<Sum>() || (A.e->is<Constant>() && B.e->is<Constant>())) { auto p = A.p; padd(p, B.p); *A.e += *B.e; A.p = p; } else continue; } break;
        case 22: mono(op = "Expr-="); { if (A.e->is<Sum>() || (A.e->is<Constant>() && B.e->is<Constant>())) { auto p = A.p; padd(p, B.p, Z(-1)); *A.e -= *B.e; A.p = p; } else continue; } break;
        case 23: mono(op = "construct"); {   // constructors taking ranges and expressions
          int k = r(4); auto p = pmul(A.p, B.p); std::vector<ExprPtr> v{A.e, B.e};
          if (k == 0) w.add(ex<Product>(v, flat), p); else if (k == 1) w.add(ex<Product>(v.begin(), v.end(), flat), p);
          else { auto q = A.p; padd(q, B.p); if (k == 2) w.add(ex<Sum>(v), q); else w.add(ex<Sum>(v.begin(), v.end()), q); } } break;
        case 24: mono(op = "visit"); {       // visits every subexpression, mutably
          int n = 0; A.e->visit([&](ExprPtr& x) { if (x->is<Variable>()) { x = ex<Variable>(L"q"); ++n; } });
          A.p = poly(A.e); if (A.e->is<Variable>()) {} rep.count("visited_variables", n); } break;
      }
    } catch (Discard&) { throw; }
    catch (std::exception& x) { rep.violation(std::string("throws:") + op, std::string(x.what()) + "\n  history " + w.log); return; }
    rep.distinct("states", hstr(vf::show(A.e)));
    w.check(op);
  }
  if (!w.pool.empty()) { rep.distinct("nontrivial", hstr(w.log)); rep.sample("history", w.log); }
}
// a self-operand is as good as any other operand (bounded memory: runs under the sanitizer in C19)
void self_operand(Rng& r, Reporter& rep) {
  World w{r, rep, false}; g_adj.clear();
  ExprPtr e = pick_tree(w, 2); if (e->is_atom()) throw Discard{};
  Poly p = poly(e), q; std::string in = vf::show(e); const char* op = "";
  if (r.chance(1, 2)) (void)e->hash_value();
  switch (r(e->is<Sum>() ? 5 : 4)) {
    case 0: op = "ExprPtr+="; q = p; padd(q, p); e += e; break;
    case 1: op = "ExprPtr-="; e -= e; break;
    case 2: op = "ExprPtr*="; q = pmul(p, p); e *= e; break;
    case 3: op = "append"; q = pmul(p, p); if (e->is<Product>()) { bool pre = r.chance(1, 2); if (pre) e->as<Product>().prepend(1, e, r.chance(1, 2) ? Product::Flatten::No : Product::Flatten::Yes); else e->as<Product>().append(1, e, r.chance(1, 2) ? Product::Flatten::No : Product::Flatten::Yes); } else { q = p; padd(q, p); e->as<Sum>().append(e); } break;
    case 4: op = "prepend"; q = p; padd(q, p); e->as<Sum>().prepend(e); break;
  }
  rep.count("self_operand"); rep.distinct("nontrivial", hstr(std::string(op) + in));
  if (poly(e) != q) rep.violation(std::string("self-operand:") + op, "expected " + show(q) + "\n  found " + show(poly(e)) + "\n  operand " + in);
}
// collecting summands
void accumulate(Rng& r, Reporter& rep) {
  World w{r, rep, false}; g_adj.clear();
  HashingAccumulator acc; Poly p; std::string in; std::vector<ExprPtr> base; int nb = r.range(1, 3);
  for (int i = 0; i < nb; ++i) base.push_back(pick_tree(w, 1));
  base.push_back(ex<Constant>(w.scalar()));
  std::vector<ExprPtr> given; std::vector<std::string> before;
  int n = r.range(1, 7);
  for (int i = 0; i < n; ++i) {
    ExprPtr b = r.pick(base)->clone(), t = b; int q = r(4);
    if (q == 0) t = ex<Constant>(w.scalar()) * b; else if (q == 1) { auto pr = std::make_shared<Product>(); pr->append(1, b); t = pr; } else if (q == 2) t = ex<Constant>(w.scalar());
    padd(p, poly(t)); in += vf::show(t) + " ; "; given.push_back(t);
  }
  rep.count("accumulations"); rep.distinct("nontrivial", hstr(in)); rep.sample("accumulate", in);
  int mode = r(3); ExprPtr out;
  if (mode == 2) { out = transform_sum_expr(given, [](const ExprPtr& x) { return x->clone(); }, {.canonicalize = false, .flatten = true}); }
  else { for (auto& t : given) acc.append(t->clone()); out = mode == 0 ? ExprPtr(acc.make_sum()) : acc.make_expr(r.chance(1, 2)); }
  if (poly(out) != p) rep.violation(std::string("accumulate:") + (mode == 2 ? "transform_sum_expr" : mode ? "make_expr" : "make_sum"), "expected " + show(p) + "\n  found " + show(poly(out)) + "\n  summands " + in);
  if (auto c = out->clone(); poly(c) != p) rep.violation("accumulate-clone", in);
}
// orderings are strict weak orders consistent with equality
void order(Rng& r, Reporter& rep) {
  World w{r, rep, true}; g_adj.clear();
  std::vector<ExprPtr> v; int n = r.range(4, 9), kind = r(5);
  std::vector<Index> protos = w.some(3);
  while ((int)v.size() < n) {
    ExprPtr e;
    if (kind == 0) { do e = w.atom(); while (!e->is<Tensor>()); if (r.chance(1, 3)) { auto t = e->clone(); auto& tt = t->as<Tensor>(); if (tt.bra_rank() >= 1) { std::vector<Index> b(tt.bra().begin(), tt.bra().end()); b[0] = Index(L"a_1", {protos[r(3)]}); bool ok = true; for (size_t q = 1; q < b.size(); ++q) ok &= !(b[q] == b[0]); if (ok) { container::svector<Index> nb(b.begin(), b.end()); tt.set_bra(nb); } } e = t; } }
    else if (kind == 1) { do e = w.atom(); while (!e->is<FNOperator>()); }
    else if (kind == 2) { do e = w.atom(); while (!e->is<Power>() && !e->is<Variable>() && !e->is<Constant>()); }
    else if (kind == 3) e = pick_tree(w, 1);
    else e = r.chance(1, 2) ? pick_tree(w, 2) : w.atom();
    if (!strict_shape(e)) continue;
    if (!v.empty() && r.chance(1, 6)) e = r.pick(v)->clone();
    v.push_back(e);
  }
  auto lt = [](const ExprPtr& a, const ExprPtr& b) { return *a < *b; };
  rep.count("order_sets"); std::string in; for (auto& e : v) in += vf::show(e) + " ; ";
  rep.distinct("nontrivial", hstr(in));
  auto bad = [&](const char* what, const ExprPtr& a, const ExprPtr& b, const ExprPtr& c = {}) { rep.violation(std::string("order:") + what, vf::show(a) + " , " + vf::show(b) + (c ? " , " + vf::show(c) : "")); };
  for (auto& a : v) {
    if (lt(a, a) || lt(a, a->clone())) return bad("irreflexive", a, a);
    for (auto& b : v) {
      if (lt(a, b) && lt(b, a)) return bad("asymmetric", a, b);
      if (*a == *b && (lt(a, b) || lt(b, a))) return bad("equal-but-ordered", a, b);
      rep.count("order_pairs");
      for (auto& c : v) {
        if (lt(a, b) && lt(b, c) && !lt(a, c)) return bad("transitive", a, b, c);
        auto inc = [&](const ExprPtr& x, const ExprPtr& y) { return !lt(x, y) && !lt(y, x); };
        if (inc(a, b) && inc(b, c) && !inc(a, c)) return bad("incomparability", a, b, c);
      }
    }
  }
}
// mutators of a tensor leave its derived data consistent
void tensor_state(Rng& r, Reporter& rep) {
  World w{r, rep, false}; g_adj.clear();
  ExprPtr e; do e = w.atom(); while (!e->is<Tensor>());
  auto& t = e->as<Tensor>(); std::string log = vf::show(e);
  for (int s = 0; s < r.range(1, 5); ++s) {
    if (r.chance(1, 2)) { (void)t.hash_value(); (void)t.bra_hash_value(); }
    int k = r(6);
    auto sv = [&](int n) { auto v = w.some(n); container::svector<Index> o(v.begin(), v.end()); return o; };
    bool fixed = t.symmetry() != Symmetry::Nonsymm || t.braket_symmetry() != BraKetSymmetry::Nonsymm || t.column_symmetry() == ColumnSymmetry::Symm;
    if (k == 0) { t.set_bra(sv(fixed ? (int)t.bra_rank() : r(3))); log += " set_bra"; }
    if (k == 1) { t.set_ket(sv(fixed ? (int)t.ket_rank() : r(3))); log += " set_ket"; }
    if (k == 2) { t.set_aux(sv(r(3))); log += " set_aux"; }
    if (k == 3) { t.adjoint(); log += " adjoint"; }
    if (k == 4) { t.set_label(L"q"); log += " set_label"; }
    if (k == 5) { ExprPtr old = e; Tensor c(t); e = ex<Tensor>(c); log += " copy"; if (!(c == t) || c.hash_value() != t.hash_value()) { rep.violation("tensor-copy", log); return; } }
    auto& u = e->as<Tensor>();
    size_t nb = 0, nk = 0; for (auto& i : u.bra()) nb += i.nonnull(); for (auto& i : u.ket()) nk += i.nonnull();
    rep.count("tensor_states");
    if (u.bra_net_rank() != nb || u.ket_net_rank() != nk) { rep.violation("net-rank", "net ranks " + std::to_string(u.bra_net_rank()) + "," + std::to_string(u.ket_net_rank()) + " but " + std::to_string(nb) + "," + std::to_string(nk) + " indices present\n  " + log + "\n  " + vf::show(e)); return; }
    auto f = rebuild(e);
    size_t h, bh; try { h = u.hash_value(); bh = u.bra_hash_value(); } catch (std::exception& x) { rep.violation("tensor-hash", log + ": " + x.what()); return; }
    if (h != f->hash_value() || bh != f->as<Tensor>().bra_hash_value() || !(*e == *f)) { rep.violation("tensor-hash", log + "\n  " + vf::show(e)); return; }
    if (&u != &t) return;
  }
  rep.distinct("nontrivial", hstr(log + vf::show(e)));
}
}  // namespace
int main(int argc, char** argv) {
  Suite s("C04");
  setup_sr();
  s.add("history", 20000, 600000, [&](Rng& r, long, Reporter& rep) { history(r, rep, false); });
  s.add("history-operators", 10000, 300000, [&](Rng& r, long, Reporter& rep) { history(r, rep, true); });
  s.add("self-operand", 1500, 10000, [&](Rng& r, long, Reporter& rep) { self_operand(r, rep); });
  s.add("accumulate", 12000, 100000, [&](Rng& r, long, Reporter& rep) { accumulate(r, rep); });
  s.add("order", 4000, 100000, [&](Rng& r, long, Reporter& rep) { order(r, rep); });
  s.add("tensor", 4000, 100000, [&](Rng& r, long, Reporter& rep) { tensor_state(r, rep); });
  return s.main(argc, argv);
}
