// C11: exported programs compute the exported expressions. The export is driven
// into an abstract machine that executes every call with exact arithmetic and
// enforces the memory discipline, or into a text back end whose output is run.
#include "common/evalx.hpp"
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/generation_optimizer.hpp>
#include <SeQuant/core/export/reordering_context.hpp>
#include <SeQuant/core/export/itf.hpp>
#include <SeQuant/core/export/julia_tensor_operations.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <cstdio>
#include <fstream>
#include <unistd.h>
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
namespace {
using ENode = ExportNode<ExportExpr>;
std::string u8(std::wstring_view w) { return toUtf8(std::wstring(w)); }
struct Conf { PrunableScalars prune = PrunableScalars::None; DeclarationScope di{}, dv{}, dt{}; bool batching = false, req_sections = false; };
// the abstract machine
struct State {
  Conf c; Model* m; Evaluator ev; std::string bad, badsig; std::vector<std::string> log; std::vector<Index> batch;
  struct Cell { Dense d; bool def = true; };
  std::map<std::string, Cell> mem, disk; std::vector<std::string> stack; std::set<std::string> known;
  std::set<std::wstring> programs;   // labels of results
  std::map<std::string, std::vector<Index>> layout;   // of persisted results
  std::map<std::string, long> n; std::vector<std::string> persisted;
  int exports = 0, expr = 0, sections = 0; std::optional<DeclarationScope> decl; bool ended = false;
  std::set<std::string> D[3]; std::map<std::string, UsageSet> usage; long since[3] = {0, 0, 0}; std::size_t peak = 0;
  State(Conf c, Model* m) : c(c), m(m), ev(*m) {}
  void fail(const char* sig, const std::string& s) { if (bad.empty()) { badsig = sig; bad = s; } }
  static std::string space_key(const Index& i) { return u8(i.space().base_key()) + std::to_string(i.space().qns().to_int32()); }
  std::string key(const Tensor& t) const {
    std::string s = u8(t.label()) + "["; 
    auto add = [&](auto&& r) { for (auto& i : r) { s += i.nonnull() ? space_key(i) : "-"; if (i.nonnull()) for (size_t k = 0; k < batch.size(); ++k) if (batch[k] == i) s += "#" + std::to_string(k); s += ","; } };
    add(t.const_slots()); return s + "]"; }   // a block is a label with a sequence of spaces
  std::string key(const Variable& v) const { return u8(v.label()) + (v.conjugated() ? "*" : ""); }
  static std::vector<Index> slots(const Tensor& t) { std::vector<Index> o; for (auto& i : t.const_slots()) if (i.nonnull()) o.push_back(i); return o; }
  static std::vector<Index> slots(const Variable&) { return {}; }
  std::vector<int> dims(const Tensor& t) { auto s = slots(t); Evaluator e(*m); std::vector<int> d; for (auto& i : s) { auto it = ext.find(space_key(i)); if (it == ext.end()) { auto a = Evaluator(*m).eval(ex<Tensor>(L"dim", bra(std::vector<Index>{i}), ket{}, aux{}), {i}); it = ext.emplace(space_key(i), a.dims.at(0)).first; } d.push_back(it->second); } return d; }
  std::vector<int> dims(const Variable&) { return {}; }
  std::map<std::string, int> ext;
  bool program_label(std::wstring_view l) const { if (programs.count(std::wstring(l))) return true; if (l.empty() || (l[0] != L'I' && l[0] != L'Z')) return false; for (size_t k = 1; k < l.size(); ++k) if (!iswdigit(l[k])) return false; return true; }
  void note(const char* op, const std::string& k) { log.push_back(std::string(op) + " " + k); ++n[op]; if (!expr) fail("nesting", std::string(op) + " outside an expression"); if (decl) fail("nesting", std::string(op) + " inside declarations"); }
  void declared(const Tensor& t) { auto k = block(t); if (!D[2].count(k)) fail("undeclared", "tensor " + k + " is used without a declaration"); for (auto& i : slots(t)) if (!D[0].count(u8(i.full_label()))) fail("undeclared", "index " + u8(i.full_label()) + " is used without a declaration"); }
  void declared(const Variable& v) { if (!D[1].count(key(v))) fail("undeclared", "variable " + key(v) + " is used without a declaration"); }
  std::string block(const Tensor& t) const { auto b = batch; const_cast<State*>(this)->batch.clear(); auto k = key(t); const_cast<State*>(this)->batch = b; return k; }
  std::string block(const Variable& v) const { return key(v); }
  template <class T> void use(const T& t, Usage u, const char* what) { auto it = usage.find(block(t)); if (it == usage.end() || !(it->second & u)) fail("usage", block(t) + " is used as " + what + " without having been declared so"); }
  template <class T> void alloc(const T& t) { auto k = key(t); stack.push_back(k); std::size_t s = 0; for (auto& [q, c] : mem) s += c.d.data.size(); peak = std::max(peak, s); }
  template <class T> void create(const T& t, bool zero) {
    auto k = key(t); note(zero ? "create0" : "create", k); declared(t);
    if (mem.count(k)) { fail("memory", "create of " + k + ", which is in memory already"); return; }
    Cell c; c.d.dims = dims(t); c.d.data.assign(vol(c.d.dims), Z(0)); c.def = zero; mem[k] = c; known.insert(k); alloc(t);
    if (!program_label(t.label())) fail("memory", "create of the input " + k);
  }
  // the context may have rewritten an input: its stored form then is the original's values in the new order
  std::shared_ptr<std::vector<std::pair<Tensor, Tensor>>> rewrites; std::map<std::string, Dense> inputs; long reordered = 0;
  Dense input(const Variable& v) { Arr a = ev.eval(v.clone(), {}); return {a.dims, a.data}; }
  Dense input(const Tensor& t) {
    auto b = block(t); auto it = inputs.find(b); if (it != inputs.end()) return it->second;
    Dense d; bool first = true;
    for (auto& [o, n] : *rewrites) if (block(n) == b) {
      if (slots(o) != slots(n)) ++reordered;
      Arr a = ev.eval(o.clone(), slots(n)); Dense x{a.dims, a.data};
      if (first) d = x; else if (d.data != x.data || d.dims != x.dims) fail("rewrite", "different tensors share the block " + b + " after rewriting");
      first = false; }
    if (first) fail("rewrite", b + " was never handed to the context");
    return inputs[b] = d;
  }
  template <class T> void load(const T& t, bool zero) {
    auto k = key(t); note(zero ? "load0" : "load", k); declared(t);
    if (mem.count(k)) { fail("memory", "load of " + k + ", which is in memory already"); return; }
    Cell c;
    if (!program_label(t.label())) {
      use(t, Usage::Terminal, "an input");
      try { c.d = input(t); } catch (EvalError&) { throw Discard{}; }
    } else if (disk.count(block(t))) c = disk.at(block(t));
    else if (known.count(k)) { c.d.dims = dims(t); c.d.data.assign(vol(c.d.dims), Z(0)); c.def = false; }
    else { fail("memory", "load of " + k + ", which does not exist"); c.d.dims = dims(t); c.d.data.assign(vol(c.d.dims), Z(0)); }
    if (zero) { for (auto& x : c.d.data) x = Z(0); c.def = true; }
    mem[k] = c; alloc(t);
  }
  template <class T> void zero(const T& t) { auto k = key(t); note("zero", k); auto it = mem.find(k); if (it == mem.end()) { fail("memory", "set_to_zero of " + k + ", which is not in memory"); return; } for (auto& x : it->second.d.data) x = Z(0); it->second.def = true; }
  template <class T> void release(const T& t, const char* op) {
    auto k = key(t); note(op, k);
    if (!mem.count(k)) { fail("memory", std::string(op) + " of " + k + ", which is not in memory"); return; }
    if (std::string(op) == "persist") {
      if (!mem[k].def) fail("undefined", "an undefined value of " + k + " is persisted");
      if (!programs.count(std::wstring(t.label()))) fail("memory", "persist of " + k + ", which is not a result");
      use(t, Usage::Result, "a result");
      disk[block(t)] = mem[k]; persisted.push_back(u8(t.label())); layout[u8(t.label())] = slots(t);
      final_[u8(t.label())] = mem[k].d;
    }
    mem.erase(k);
    if (stack.empty() || stack.back() != k) { std::string s; for (auto& x : stack) s += " " + x; fail("stack-discipline", std::string(op) + " of " + k + " while the allocations are, in order," + s); auto it = std::find(stack.begin(), stack.end(), k); if (it != stack.end()) stack.erase(it); } else stack.pop_back();
  }
  std::map<std::string, Dense> final_;
  // value of an expression over what is in memory
  struct Val { Dense d; std::vector<Index> ix; };
  template <class T> const Cell* operand(const T& t) {
    auto k = key(t); auto it = mem.find(k);
    if (it == mem.end()) { fail("memory", "compute reads " + k + ", which is not in memory"); return nullptr; }
    if (!it->second.def) { fail("undefined", "compute reads " + k + ", which has no defined value"); return nullptr; }
    if (program_label(t.label()) && !disk.count(block(t))) use(t, Usage::Intermediate, "an intermediate");
    return &it->second;
  }
  bool gather(const Expr& e, Z& s, std::vector<Val>& v, std::set<std::string>& read) {
    if (e.is<Tensor>()) { auto* c = operand(e.as<Tensor>()); if (!c) return false; read.insert(key(e.as<Tensor>())); v.push_back({c->d, slots(e.as<Tensor>())}); return true; }
    if (e.is<Variable>()) { auto* c = operand(e.as<Variable>()); if (!c) return false; read.insert(key(e.as<Variable>())); s *= c->d.data.at(0); return true; }
    if (e.is<Product>()) { auto& p = e.as<Product>(); s *= scalar_of(ex<Constant>(p.scalar())); for (auto& f : p.factors()) if (!gather(*f, s, v, read)) return false; return true; }
    if (e.is<Power>()) { auto& b = *e.as<Power>().base(); if (b.is<Variable>() && !operand(b.as<Variable>())) return false; s *= scalar_of(e.clone()); return true; }
    if (e.is<Constant>()) { s *= scalar_of(e.clone()); return true; }
    fail("expression", "compute is handed an expression of an unexpected kind"); return false;
  }
  Z scalar_of(const ExprPtr& e) { try { return ev.eval(e, {}).data.at(0); } catch (EvalError&) { throw Discard{}; } }
  template <class T> void compute(const Expr& e, const T& res) {
    auto k = key(res); note("compute", k + " += " + show(e.clone()));
    if (!mem.count(k)) { fail("memory", "compute into " + k + ", which is not in memory"); return; }
    Z s(1); std::vector<Val> v; std::set<std::string> read;
    if (!gather(e, s, v, read)) return;
    if (read.count(k)) { fail("memory", "compute reads and updates " + k); return; }
    if (!mem[k].def) { fail("undefined", "compute adds to an undefined " + k); return; }
    auto out = labels(slots(res)); Dense cur; cur.data = {s}; Lab cl;
    for (size_t q = 0; q < v.size(); ++q) {
      Lab nl = labels(v[q].ix), lo; auto later = [&](const std::wstring& l) { if (std::count(out.begin(), out.end(), l)) return true; for (size_t z = q + 1; z < v.size(); ++z) for (auto& i : v[z].ix) if (l == std::wstring(i.full_label())) return true; return false; };
      for (auto* L : {&cl, &nl}) for (auto& l : *L) if (later(l) && !std::count(lo.begin(), lo.end(), l)) lo.push_back(l);
      cur = einsum(cur, cl, v[q].d, nl, lo); cl = lo;
    }
    Dense one; one.data = {Z(1)};
    try { cur = einsum(cur, cl, one, {}, out); } catch (EinsumErr& x) { fail("expression", std::string(x.what()) + " in compute of " + k); return; }
    auto& d = mem[k].d; if (d.dims != cur.dims) { fail("expression", "extents disagree in compute of " + k); return; }
    for (size_t z = 0; z < d.data.size(); ++z) d.data[z] += cur.data[z];
  }
  void declare(int what, const std::string& k, DeclarationScope sc) { if (!decl || *decl != sc) fail("nesting", "declaration of " + k + " outside declarations of its scope"); if (!D[what].insert(k).second) fail("declared-twice", k + " is declared twice in one scope"); ++since[what]; ++n["declare"]; }
  void all(int what, std::size_t am, DeclarationScope sc) { if (!decl || *decl != sc) fail("nesting", "end of declarations outside declarations of the scope"); if ((long)am != since[what]) fail("declared-count", "the number of declared objects is wrong"); since[what] = 0; }
  void clear(DeclarationScope sc) { if (c.di == sc) D[0].clear(); if (c.dv == sc) D[1].clear(); if (c.dt == sc) D[2].clear(); }
};
template <class C> class Machine : public Generator<C> {
  std::shared_ptr<State> s;
 public:
  explicit Machine(std::shared_ptr<State> s) : s(s) {}
  std::string get_format_name() const override { return "machine"; }
  bool supports_named_sections() const override { return true; }
  bool requires_named_sections() const override { return s->c.req_sections; }
  bool supports_index_batching() const override { return s->c.batching; }
  DeclarationScope index_declaration_scope() const override { return s->c.di; }
  DeclarationScope variable_declaration_scope() const override { return s->c.dv; }
  DeclarationScope tensor_declaration_scope() const override { return s->c.dt; }
  PrunableScalars prunable_scalars() const override { return s->c.prune; }
  std::string represent(const Index& i, const C&) const override { return u8(i.full_label()); }
  std::string represent(const Tensor& t, const C&) const override { return s->key(t); }
  std::string represent(const Variable& v, const C&) const override { return s->key(v); }
  std::string represent(const Constant&, const C&) const override { return "c"; }
  std::string represent(const Power&, const C&) const override { return "p"; }
  void create(const Tensor& t, bool z, const C&) override { s->create(t, z); }
  void load(const Tensor& t, bool z, const C&) override { s->load(t, z); }
  void set_to_zero(const Tensor& t, const C&) override { s->zero(t); }
  void unload(const Tensor& t, const C&) override { s->release(t, "unload"); }
  void destroy(const Tensor& t, const C&) override { s->release(t, "destroy"); }
  void persist(const Tensor& t, const C&) override { s->release(t, "persist"); }
  void create(const Variable& t, bool z, const C&) override { s->create(t, z); }
  void load(const Variable& t, bool z, const C&) override { s->load(t, z); }
  void set_to_zero(const Variable& t, const C&) override { s->zero(t); }
  void unload(const Variable& t, const C&) override { s->release(t, "unload"); }
  void destroy(const Variable& t, const C&) override { s->release(t, "destroy"); }
  void persist(const Variable& t, const C&) override { s->release(t, "persist"); }
  void compute(const Expr& e, const Tensor& r, const C&) override { s->declared(r); s->compute(e, r); }
  void compute(const Expr& e, const Variable& r, const C&) override { s->declared(r); s->compute(e, r); }
  void declare(const Index& i, const C&) override { s->declare(0, u8(i.full_label()), s->c.di); }
  void declare(const Variable& v, UsageSet u, const C&) override { s->declare(1, s->key(v), s->c.dv); s->usage[s->key(v)] = u; }
  void declare(const Tensor& t, UsageSet u, const C&) override { s->declare(2, s->block(t), s->c.dt); s->usage[s->block(t)] = u; }
  void all_indices_declared(std::size_t a, const C&) override { s->all(0, a, s->c.di); }
  void all_variables_declared(std::size_t a, const C&) override { s->all(1, a, s->c.dv); }
  void all_tensors_declared(std::size_t a, const C&) override { s->all(2, a, s->c.dt); }
  void begin_declarations(DeclarationScope sc, const C&) override { if (s->decl || s->expr || !s->exports) s->fail("nesting", "begin_declarations out of place"); s->decl = sc; s->clear(sc); }
  void end_declarations(DeclarationScope sc, const C&) override { if (!s->decl || *s->decl != sc) s->fail("nesting", "end_declarations out of place"); s->decl.reset(); }
  void insert_comment(const std::string&, const C&) override {}
  void begin_named_section(std::string_view, const C& c) override { if (s->sections++ || s->expr || !s->exports) s->fail("nesting", "begin_named_section out of place"); if (!c.inside_named_section()) s->fail("nesting", "the context does not know the section"); ++s->n["section"]; }
  void end_named_section(std::string_view, const C&) override { if (--s->sections || s->expr) s->fail("nesting", "end_named_section out of place"); }
  void begin_expression(const C& c) override { if (s->expr++ || s->decl || !s->exports) s->fail("nesting", "begin_expression out of place"); s->batch = c.batch_indices(c.current_expression_id()); }
  void end_expression(const C&) override { if (--s->expr) s->fail("nesting", "end_expression out of place"); if (!s->mem.empty()) s->fail("leak", s->mem.begin()->first + " is still in memory at the end of the expression"); ++s->n["expression"]; }
  void begin_export(const C&) override { if (s->exports++) s->fail("nesting", "begin_export out of place"); }
  void end_export(const C&) override { if (--s->exports || s->expr || s->decl || s->sections) s->fail("nesting", "end_export out of place"); s->ended = true; }
  std::string get_generated_code() const override { return {}; }
};
using Rewrites = std::vector<std::pair<Tensor, Tensor>>;
template <class B> struct Ctx : B {
  using B::B; Ctx() requires std::is_same_v<B, ReorderingContext> : B(MemoryLayout::ColumnMajor) {} Ctx() requires(!std::is_same_v<B, ReorderingContext>) = default; std::shared_ptr<Rewrites> log = std::make_shared<Rewrites>();
  bool rewrite(Tensor& t) const override { auto o = t; bool m = B::rewrite(t); log->emplace_back(o, t); return m; }
  std::vector<Index> b; std::vector<Index> batch_indices(std::optional<std::size_t> = {}) const override { return b; }
};
// a list of results; later ones may use earlier ones
struct Prog {
  World w; std::vector<ResultExpr> res; std::vector<ExprPtr> ref; std::string d;
  std::wstring name(int k) const { return L"R" + std::to_wstring(k); }
  ExprPtr again(const ExprPtr& t) { World::Map m; for (auto& i : w.ext) m.emplace(i, i); return w.rename(t, m); }
  // structures made to need several live intermediates of one block
  ExprPtr term(Rng& r) {
    if (w.ext.empty() || r.chance(1, 2)) return w.term();
    auto a = w.term(); if (!a->is<Product>()) return a;
    return a;
  }
  Prog(Rng& r, Reporter& rep, GenParams gp, bool sums, int n) : w(r, rep, gp, sums) {
    w.flat = !sums && r.chance(1, 2);
    int nb = r(3), nk = r.chance(2, 3) ? nb : r(3);
    w.init(nb, nk, gp.aux_spaces.empty() ? 0 : r(2), r.range(1, 3));
    std::vector<ExprPtr> plain;
    for (int k = 0; k < n; ++k) {
      int m = r.chance(1, 2) ? 1 : r.range(2, 3); std::vector<ExprPtr> l, lr;
      bool uses = k && r.chance(1, 3);
      for (int q = 0; q < m; ++q) {
        ExprPtr t = relabel(k && r.chance(1, 8) ? again(plain[r(k)]) : term(r)), tr = t;
        if (!t->is<Product>() && !t->is<Tensor>()) throw Discard{};
        if (q == 0) plain.push_back(t);
        if (uses && q == 0) {
          int o = r(k);
          if (w.ext.empty()) { t = make_product({ex<Variable>(name(o)), t}, 1); tr = make_product({ref[o], tr}, 1); }
          else {
            World::Map mp; auto sh = [&](const std::vector<Index>& v) { for (auto& i : v) mp.emplace(i, i); if (v.size() >= 2 && v[0].space() == v[1].space() && r.chance(1, 2)) { mp.erase(v[0]); mp.erase(v[1]); mp.emplace(v[0], v[1]); mp.emplace(v[1], v[0]); } };
            sh(w.E.bra); sh(w.E.ket); sh(w.E.aux);
            auto f = ex<Tensor>(name(o), bra(w.E.bra), ket(w.E.ket), aux(w.E.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
            t = w.rename(f, mp); tr = w.rename(ref[o], mp); if (r.chance(1, 2)) { t = make_product({t, ex<Constant>(rational(3, 2))}, 1); tr = make_product({tr, ex<Constant>(rational(3, 2))}, 1); }
          }
          rep.count("results_reused");
        }
        l.push_back(t); lr.push_back(tr);
      }
      ExprPtr e = m == 1 ? l[0] : ExprPtr(std::make_shared<Sum>(l.begin(), l.end())), er = m == 1 ? lr[0] : ExprPtr(std::make_shared<Sum>(lr.begin(), lr.end()));
      if (r.chance(1, 4)) e = optimize(e);
      ref.push_back(er);
      res.push_back(w.ext.empty() ? ResultExpr(Variable(name(k)), e) : ResultExpr(Tensor(name(k), bra(w.E.bra), ket(w.E.ket), aux(w.E.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e));
      d += "    " + u8(name(k)) + " = " + show(e) + "\n";
    }
  }
};
double cost(const ENode& t) { if (t.leaf()) return 1; std::set<std::wstring> u; for (auto* c : {&t.left(), &t.right()}) for (auto& i : (*c)->canon_indices()) u.insert(std::wstring(i.full_label())); double v = 1; for (size_t k = 0; k < u.size(); ++k) v *= 3; return v + cost(t.left()) + cost(t.right()); }
std::string trace(const State& s) { std::string o; for (auto& l : s.log) o += "      " + l + "\n"; return o; }
template <class Base> void run(Rng& r, Reporter& rep, GenParams gp, ModelParams mp, bool sums) {
  Prog p(r, rep, gp, sums, r.chance(1, 2) ? 1 : r.range(2, 4));
  Model m(r.next(), mp); Evaluator ev(m);
  bool retain = r.chance(1, 3);
  Conf c; c.prune = r.pick(std::vector<PrunableScalars>{PrunableScalars::None, PrunableScalars::Constants, PrunableScalars::Variables, PrunableScalars::All});
  auto scope = [&] { return r.pick(std::vector<DeclarationScope>{DeclarationScope::Global, DeclarationScope::Section, DeclarationScope::Expression}); };
  c.di = scope(); c.dv = scope(); c.dt = scope(); c.req_sections = r.chance(1, 3); c.batching = r.chance(1, 4);
  std::string conf = "  prune=" + std::to_string((int)c.prune) + " retain=" + std::to_string(retain) + "\n" + p.d;
  rep.sample("program", conf);
  guarded(rep, "export", conf, [&] {
    std::vector<std::vector<Z>> want; std::vector<Arr> arrs;
    try { for (auto& e : p.ref) arrs.push_back(ev.eval(e, p.w.ext)); } catch (EvalError&) { throw Discard{}; }
    auto build = [&] { std::vector<ENode> v; for (auto& x : p.res) v.push_back(to_export_tree(x.clone(), retain)); return v; };
    auto trees = build(); double cc = 0; for (auto& t : trees) cc += cost(t); if (cc > 3e5) throw Discard{};
    // groups
    std::vector<int> cut; for (size_t k = 0; k + 1 < trees.size(); ++k) if (r.chance(1, 3)) cut.push_back((int)k);
    bool named = !cut.empty() || r.chance(1, 2); 
    std::vector<Index> batch; if (c.batching) for (auto& t : trees) { std::function<void(const ENode&)> go = [&](const ENode& n) { if (!n.leaf()) { go(n.left()); go(n.right()); } else if (n->is_tensor()) for (auto& i : n->as_tensor().const_indices()) if (r.chance(1, 4) && !std::count(batch.begin(), batch.end(), i)) batch.push_back(i); }; go(t); }
    auto uses = [&](size_t k, size_t j) { bool u = false; p.res[k].expression()->visit([&](auto const& x) { if ((x->template is<Tensor>() && x->template as<Tensor>().label() == p.name((int)j)) || (x->template is<Variable>() && x->template as<Variable>().label() == p.name((int)j))) u = true; }, true); return u; };
    auto used_later = [&](size_t j) { for (size_t k = j + 1; k < trees.size(); ++k) if (uses(k, j)) return true; return false; };
    // strategies of the results: 0 created and zeroed, 1 loaded (preset) and zeroed, 2 loaded and accumulated
    std::vector<int> strat; for (size_t k = 0; k < trees.size(); ++k) strat.push_back(std::is_same_v<Base, ReorderingContext> || r.chance(1, 2) || used_later(k) ? 0 : r.range(1, 2));
    std::vector<std::shared_ptr<State>> st;
    for (int opt = 0; opt < 2; ++opt) {
      auto s = std::make_shared<State>(c, &m); for (size_t k = 0; k < trees.size(); ++k) s->programs.insert(p.name((int)k));
      auto ts = opt ? build() : trees; using C = Ctx<Base>; C ctx; ctx.b = batch; s->rewrites = ctx.log;
      if constexpr (std::is_same_v<Base, ReorderingContext>) { ctx.set_memory_layout(r.pick(std::vector<MemoryLayout>{MemoryLayout::ColumnMajor, MemoryLayout::RowMajor})); }
      std::vector<Dense> preset(ts.size());
      for (size_t k = 0; k < ts.size(); ++k) {
        if (!strat[k]) continue;
        auto ls = LoadStrategy::Load; auto zs = strat[k] == 1 ? ZeroStrategy::ZeroOnLoad : ZeroStrategy::NeverZero;
        State::Cell cell; Rng q(hstr(conf) + k);
        if (ts[k]->is_tensor()) { auto& t = ts[k]->as_tensor(); ctx.setLoadStrategy(t, ls); ctx.setZeroStrategy(t, zs); cell.d.dims = s->dims(t); cell.d.data.resize(vol(cell.d.dims)); for (auto& x : cell.d.data) x = Z(q(1000)); s->disk[s->block(t)] = cell; }
        else { auto& t = ts[k]->as_variable(); ctx.setLoadStrategy(t, ls); ctx.setZeroStrategy(t, zs); cell.d.data = {Z(q(1000))}; s->disk[s->block(t)] = cell; }
        preset[k] = cell.d;
      }
      std::vector<ExpressionGroup<ExportExpr>> groups; ExpressionGroup<ExportExpr> cur = named ? ExpressionGroup<ExportExpr>(std::optional<std::string>("g0")) : ExpressionGroup<ExportExpr>();
      for (size_t k = 0; k < ts.size(); ++k) { cur.add(ts[k]); if (std::count(cut.begin(), cut.end(), (int)k)) { groups.push_back(cur); cur = ExpressionGroup<ExportExpr>(std::optional<std::string>("g" + std::to_string(groups.size()))); } }
      groups.push_back(cur);
      Machine<C> mach(s);
      if (opt) { GenerationOptimizer<Machine<C>> g(mach); export_groups<ExportExpr, C>(groups, static_cast<Generator<C>&>(g), ctx); }
      else export_groups<ExportExpr, C>(groups, static_cast<Generator<C>&>(mach), ctx);
      std::string after = conf + "  " + (opt ? "optimized " : "") + "calls\n" + trace(*s);
      if (!s->bad.empty()) { rep.violation((opt ? "optimized:" : "") + s->badsig, s->bad + "\n" + after); return; }
      if (!s->ended) rep.violation("nesting", "end_export was not called\n" + after);
      if (s->persisted.size() != ts.size()) { rep.violation("results", "the number of stored results is wrong\n" + after); return; }
      for (size_t k = 0; k < ts.size(); ++k) {
        auto nm = u8(p.name((int)k)); if (s->persisted[k] != nm) { rep.violation("results", "results are stored out of order\n" + after); return; }
        auto& got = s->final_.at(nm); auto w = permuted(arrs[k], p.w.ext, s->layout.at(nm)); if (w.size() != got.data.size()) { rep.violation("results", "the shape of " + nm + " is wrong\n" + after); return; }
        if (strat[k] == 2) w = plus(w, preset[k].data);
        rep.count("values_compared");
        if (w != got.data) { rep.violation(opt ? "optimized:value" : "value", "the program stores a wrong " + nm + " (strategy " + std::to_string(strat[k]) + ")\n" + after); return; }
      }
      st.push_back(s); rep.count("inputs_reordered", s->reordered); for (auto& [k, v] : s->n) rep.count("op_" + k, v);
    }
    auto total = [](State& s) { long t = 0; for (auto& [k, v] : s.n) if (k != "declare" && k != "section" && k != "expression") t += v; return t; };
    rep.count("programs"); rep.distinct("nontrivial", hstr(conf)); rep.maximum("peak_elements", (long)st[0]->peak);
    if (total(*st[1]) > total(*st[0]) || st[1]->n["compute"] != st[0]->n["compute"]) rep.violation("optimized:more", "the optimizer's program does more\n" + conf + trace(*st[0]) + "  optimized\n" + trace(*st[1]));
    rep.count("calls_saved", total(*st[0]) - total(*st[1]));
    if (st[1]->peak > st[0]->peak) rep.count("optimizer_raised_peak");
  });
}
// ---- text back ends: the emitted program is run by c11_text.py
std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o + "\""; }
std::string jarr(const Dense& d) { std::string o = "["; for (size_t k = 0; k < d.dims.size(); ++k) o += (k ? "," : "") + std::to_string(d.dims[k]); o += "],["; for (size_t k = 0; k < d.data.size(); ++k) o += (k ? ",[" : "[") + std::to_string(d.data[k].re) + "," + std::to_string(d.data[k].im) + "]"; return o + "]"; }
std::string basename_of(const char* fmt, std::string s) { std::string f = fmt; if (f != "numpy") { auto k = s.find('['); if (k != std::string::npos) s = s.substr(0, k); while (!s.empty() && s.back() == ' ') s.pop_back(); } return s; }
void setup_ctx(NumPyEinsumGeneratorContext& c, Model& m, const std::map<std::string, int>& ext) { (void)m; auto reg = get_default_context().index_space_registry(); for (auto& [k, d] : ext) c.set_shape(reg->retrieve(std::wstring(k.begin(), k.end())), std::to_string(d)); }
void setup_ctx(JuliaTensorOperationsGeneratorContext& c, Model&, const std::map<std::string, int>& ext) { auto reg = get_default_context().index_space_registry(); for (auto& [k, d] : ext) { auto& s = reg->retrieve(std::wstring(k.begin(), k.end())); c.set_dim(s, std::to_string(d)); c.set_tag(s, k == "i" ? "o" : "v"); } }
void setup_ctx(ItfContext& c, Model&, const std::map<std::string, int>& ext) { auto reg = get_default_context().index_space_registry(); for (auto& [k, d] : ext) { auto& s = reg->retrieve(std::wstring(k.begin(), k.end())); (void)d; c.set_name(s, k == "i" ? "Closed" : "External"); c.set_tag(s, k == "i" ? "c" : "e"); } c.set_index_id_offset(1); }
template <class G, class C> void text(Rng& r, Reporter& rep, const char* fmt, bool sections, GenParams gp, ModelParams mp, int n) {
  std::vector<std::string> confs; std::string file = "/tmp/vf_c11_" + std::to_string(getpid()) + "_" + std::to_string(r.next() % 1000000007) + ".json";
  std::ofstream out(file); bool itf = std::string(fmt) == "itf";
  for (int q = 0; q < n; ++q) {
    try {
      Prog p(r, rep, gp, r.chance(1, 2), !sections || r.chance(1, 2) ? 1 : 2);
      Model m(r.next(), mp); Evaluator ev(m); bool retain = !itf && r.chance(1, 4);
      std::vector<Arr> want; try { for (auto& e : p.ref) want.push_back(ev.eval(e, p.w.ext)); } catch (EvalError&) { continue; }
      std::map<std::string, int> ext; for (auto* l : {L"i", L"a"}) { Index i(std::wstring(l) + L"_1"); ext[u8(l)] = ev.eval(ex<Tensor>(L"dim", bra(std::vector<Index>{i}), ket{}, aux{}), {i}).dims.at(0); }
      std::vector<ENode> ts; for (auto& x : p.res) ts.push_back(to_export_tree(x.clone(), retain));
      double cc = 0; for (auto& t : ts) cc += cost(t); if (cc > 2e4) continue;
      C ctx; setup_ctx(ctx, m, ext); G gen;
      if constexpr (std::is_same_v<C, ItfContext>) {   // known finding: an index of one space may get the name of an index of another one
        std::map<std::string, std::wstring> nm; bool same = false;
        std::function<void(const ENode&)> go = [&](const ENode& t) { if (t->is_tensor()) for (auto& i : t->as_tensor().const_indices()) { auto& x = nm[ctx.index_name(i.space(), i.ordinal().value())]; same |= !x.empty() && x != i.full_label(); x = i.full_label(); } if (!t.leaf()) { go(t.left()); go(t.right()); } };
        for (auto& t : ts) go(t);
        if (same) { rep.count("itf_names_collide"); continue; }
      }
      std::string conf = std::string("  ") + fmt + " retain=" + std::to_string(retain) + "\n" + p.d, in, want_s; std::map<std::string, std::string> seen; bool clash = false; std::map<std::wstring, int> conj;
      std::function<void(const ENode&)> leaves = [&](const ENode& t) {
        if (!t.leaf()) { leaves(t.left()); leaves(t.right()); return; }
        auto var = [&](const Variable& v) { if (v.label()[0] == L'R') return; auto nm = basename_of(fmt, gen.represent(v, ctx)); Dense d; conj[std::wstring(v.label())] |= v.conjugated() ? 2 : 1; d.data = {ev.eval(ex<Variable>(std::wstring(v.label())), {}).data.at(0)}; auto s = "[" + jstr(nm) + "," + jarr(d) + "]"; if (auto& o = seen[nm]; o.empty()) { o = s; in += (in.empty() ? "" : ",") + s; } else clash |= o != s; };
        if (t->is_tensor()) { auto tn = t->as_tensor(); if (tn.label()[0] == L'R') return; auto o = tn; ctx.rewrite(tn); auto nm = basename_of(fmt, gen.represent(tn, ctx)); Arr a = ev.eval(o.clone(), State::slots(tn)); auto s = "[" + jstr(nm) + "," + jarr(Dense{a.dims, a.data}) + "]"; if (auto& e = seen[nm]; e.empty()) { e = s; in += (in.empty() ? "" : ",") + s; } else clash |= e != s; }
        else if (t->is_variable()) var(t->as_variable());
        else if (t->expr()->template is<Power>() && (t->expr()->template as<Power>().exponent().imag() != 0 || denominator(t->expr()->template as<Power>().exponent().real()) != 1)) throw Discard{};
        else if (t->expr()->template is<Power>() && t->expr()->template as<Power>().base()->template is<Variable>()) var(t->expr()->template as<Power>().base()->template as<Variable>());
      };
      try { for (auto& t : ts) leaves(t); } catch (EvalError&) { continue; }
      if (std::ranges::any_of(conj, [&](auto& c) { return c.second == 3 || (itf && c.second > 1); })) continue;  // outside: one variable both plain and conjugated; conjugates in ITF
      if (clash) { rep.violation("name-clash", "two different inputs get one name\n" + conf); return; }
      std::string sec; std::vector<ExpressionGroup<ExportExpr>> groups;
      for (size_t k = 0; k < ts.size(); ++k) {
        std::string nm; std::vector<Index> to;
        if (ts[k]->is_tensor()) { auto tn = ts[k]->as_tensor(); ctx.rewrite(tn); nm = gen.represent(tn, ctx); to = State::slots(tn); } else nm = gen.represent(ts[k]->as_variable(), ctx);
        Dense d; for (auto& i : to) d.dims.push_back(ext.at(u8(i.space().base_key()))); d.data = permuted(want[k], p.w.ext, to);
        want_s += (k ? ",[" : "[") + jstr(basename_of(fmt, nm)) + "," + jarr(d) + "]";
      }
      bool named = sections && (r.chance(1, 2) || itf); bool two = named && ts.size() > 1 && r.chance(1, 2);
      for (size_t k = 0; k < ts.size(); ++k) { if (groups.empty() || two) { auto nm = "g" + std::to_string(groups.size()); groups.push_back(named ? ExpressionGroup<ExportExpr>(std::optional<std::string>(nm)) : ExpressionGroup<ExportExpr>()); if (named) sec += (sec.empty() ? "" : ",") + jstr(nm); } groups.back().add(ts[k]); }
      bool opt = r.chance(1, 2); std::string code;
      try {
        if (opt) { GenerationOptimizer<G> g(gen); export_groups<ExportExpr, C>(groups, static_cast<Generator<C>&>(g), ctx); code = g.get_generated_code(); }
        else { export_groups<ExportExpr, C>(groups, static_cast<Generator<C>&>(gen), ctx); code = gen.get_generated_code(); }
      } catch (std::exception& e) { rep.violation(std::string("throws:") + fmt, std::string(e.what()) + "\n" + conf); continue; }
      confs.push_back(conf + "  program\n" + code);
      out << "{\"format\":" << jstr(fmt) << ",\"code\":" << jstr(code) << ",\"sections\":[" << sec << "],\"names\":{},\"extent\":{\"Closed\":" << ext["i"] << ",\"External\":" << ext["a"] << "},\"inputs\":[" << in << "],\"expected\":[" << want_s << "]}\n";
    } catch (Discard&) {}
  }
  out.close();
  std::string self = __FILE__; self = self.substr(0, self.rfind('/')) + "/c11_text.py";
  FILE* f = popen(("python3-vt " + self + " " + file + " 2>&1").c_str(), "r"); std::vector<std::string> lines; char buf[4096];
  while (f && fgets(buf, sizeof buf, f)) { std::string l = buf; while (!l.empty() && l.back() == '\n') l.pop_back(); lines.push_back(l); }
  if (f) pclose(f); unlink(file.c_str());
  if (lines.size() != confs.size()) { throw std::runtime_error("the interpreter answered " + std::to_string(lines.size()) + " of " + std::to_string(confs.size()) + ": " + (lines.empty() ? "" : lines.back())); }
  for (size_t k = 0; k < lines.size(); ++k) {
    rep.count(std::string("text_") + fmt); rep.distinct("nontrivial", hstr(confs[k]));
    if (lines[k] != "ok") { auto sig = lines[k].substr(0, 12); rep.violation(std::string("text:") + fmt + ":" + sig, lines[k] + "\n" + confs[k]); }
  }
}
GenParams params(bool many) { GenParams p; p.spaces = {L"i", L"a"}; p.max_tensors = 3; p.max_dummies = 4; p.max_rank = 3; p.n_labels = many ? 4 : 2; p.variables = true; p.powers = many; p.traces = false; return p; }
}  // namespace
int main(int argc, char** argv) {
  setup_min_sr(); { auto reg = get_default_context().mutable_index_space_registry(); reg->retrieve_ptr(L"i")->approximate_size(10); reg->retrieve_ptr(L"a")->approximate_size(40); }
  Suite s("C11"); ModelParams mp; mp.per_type_spin = 2; mp.per_type = {{1, 1}, {4, 3}, {8, 1}};
  s.add("flat", 400, 20000, [=](Rng& r, long, Reporter& rep) { run<ExportContext>(r, rep, params(r.chance(1, 2)), mp, false); });
  s.add("nested", 800, 40000, [=](Rng& r, long, Reporter& rep) { run<ExportContext>(r, rep, params(r.chance(1, 2)), mp, true); });
  // contexts that reorder the modes of tensors by the sizes of their spaces
  s.add("reordered", 400, 20000, [=](Rng& r, long, Reporter& rep) { run<ReorderingContext>(r, rep, params(r.chance(1, 2)), mp, r.chance(1, 2)); });
  s.add("numpy", 12, 600, [=](Rng& r, long, Reporter& rep) { text<NumPyEinsumGenerator, NumPyEinsumGeneratorContext>(r, rep, "numpy", true, params(r.chance(1, 2)), mp, 12); });
  s.add("julia", 12, 600, [=](Rng& r, long, Reporter& rep) { text<JuliaTensorOperationsGenerator<>, JuliaTensorOperationsGeneratorContext>(r, rep, "julia", false, params(r.chance(1, 2)), mp, 12); });
  s.add("itf", 12, 600, [=](Rng& r, long, Reporter& rep) { auto p = params(r.chance(1, 2)); p.powers = false; p.complex_scalars = false; text<ItfGenerator<>, ItfContext>(r, rep, "itf", true, p, mp, 12); });
  s.fixed("itf_names", 1, [](Rng&, long, Reporter& rep) {
    ItfContext ctx; std::map<std::string, int> none{{"i", 1}, {"a", 1}}; Model* m = nullptr; setup_ctx(ctx, *m, none); rep.count("itf_names");
    Index a(L"a_9"), i(L"i_1"); if (ctx.index_name(a.space(), 9) == ctx.index_name(i.space(), 1)) rep.violation("itf-index-names:a_9,i_1", "indices a_9 and i_1 both get the name " + ctx.index_name(i.space(), 1));
  });
  return s.main(argc, argv);
}
