// C16: the index-space registry behaves as the set algebra of its registered spaces, after every history of edits.
#include "common/gen.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/utility/string.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/space_qns.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
#include <iostream>
#include <optional>
using namespace vf;
using namespace sequant;
namespace {
using T = IndexSpace::Type;
using Q = IndexSpace::QuantumNumbers;
struct Sp { std::wstring key; int t, q; std::size_t n; Field f; };
struct Defaults { int v[5] = {0, 0, 0, 0, 0}; std::map<int, int> byqn[5]; int mask = 0; };   // vac, ref, complete, hole, particle
struct Mod { std::map<std::wstring, Sp> m; Defaults d; };
std::string u8(const std::wstring& w) { return toUtf8(w); }
std::string show(const Sp& s) { return u8(s.key) + "{" + std::to_string(s.t) + "," + std::to_string(s.q) + "," + std::to_string(s.n) + (s.f == Field::Real ? ",R" : "") + "}"; }
std::string show(const IndexSpace& s) { return show(Sp{s.base_key(), s.type().to_int32(), s.qns().to_int32(), s.approximate_size(), s.field()}); }
std::string show(const Mod& m) { std::string r; for (auto& [k, s] : m.m) r += show(s) + " "; r += "| vac/ref/compl/hole/part"; for (int i = 0; i < 5; ++i) { r += " " + std::to_string(m.d.v[i]); for (auto& [q, t] : m.d.byqn[i]) r += "[" + std::to_string(q) + ":" + std::to_string(t) + "]"; } return r + " mask " + std::to_string(m.d.mask); }
bool base(int t) { return t && !(t & (t - 1)); }
const Sp* find(const Mod& m, int t, int q) { for (auto& [k, s] : m.m) if (s.t == t && s.q == q) return &s; return nullptr; }
template <class F> std::optional<std::string> attempt(F&& f) { try { return f(); } catch (const std::exception&) { return {}; } }
template <class F> int attempt_bool(F&& f) { try { return f() ? 1 : 0; } catch (const std::exception&) { return -1; } }

Mod read(const IndexSpaceRegistry& r) {   // the model of a registry built by the library
  Mod m;
  for (auto& s : r) m.m[s.base_key()] = Sp{s.base_key(), s.type().to_int32(), s.qns().to_int32(), s.approximate_size(), s.field()};
  const bool ok = true;
  m.d.v[0] = r.vacuum_occupied_space(ok).to_int32(); m.d.v[1] = r.reference_occupied_space(ok).to_int32(); m.d.v[2] = r.complete_space(ok).to_int32();
  m.d.v[3] = r.hole_space(ok).to_int32(); m.d.v[4] = r.particle_space(ok).to_int32(); m.d.mask = r.physical_particle_attribute_mask();
  return m;
}
IndexSpaceRegistry& set_default(IndexSpaceRegistry& r, int which, T t) { switch (which) { case 0: return r.vacuum_occupied_space(t); case 1: return r.reference_occupied_space(t); case 2: return r.complete_space(t); case 3: return r.hole_space(t); default: return r.particle_space(t); } }
IndexSpaceRegistry& set_default(IndexSpaceRegistry& r, int which, container::map<Q, T> t) { switch (which) { case 0: return r.vacuum_occupied_space(t); case 1: return r.reference_occupied_space(t); case 2: return r.complete_space(t); case 3: return r.hole_space(t); default: return r.particle_space(t); } }
int get_default(const IndexSpaceRegistry& r, int which) { switch (which) { case 0: return r.vacuum_occupied_space(true).to_int32(); case 1: return r.reference_occupied_space(true).to_int32(); case 2: return r.complete_space(true).to_int32(); case 3: return r.hole_space(true).to_int32(); default: return r.particle_space(true).to_int32(); } }
const IndexSpace& get_default(const IndexSpaceRegistry& r, int which, Q q) { switch (which) { case 0: return r.vacuum_occupied_space(q); case 1: return r.reference_occupied_space(q); case 2: return r.complete_space(q); case 3: return r.hole_space(q); default: return r.particle_space(q); } }
// the space the model gives for a default at a quantum number (nullptr: no such space, the library has to refuse)
const Sp* model_default(const Mod& m, int which, int q) { auto it = m.d.byqn[which].find(q); int t = it != m.d.byqn[which].end() ? it->second : m.d.v[which]; if (!t) return nullptr; return find(m, t, q); }

void check(const IndexSpaceRegistry& r, const Mod& m, Rng& rng, Reporter& rep, const std::string& hist) {
  auto bad = [&](const std::string& what, const std::string& d) { rep.violation(what, d + "\n  registry: " + show(m) + "\n  history: " + hist); };
  std::map<std::wstring, Sp> got;
  for (auto& s : r) got[s.base_key()] = Sp{s.base_key(), s.type().to_int32(), s.qns().to_int32(), s.approximate_size(), s.field()};
  {
    std::string a, b; for (auto& [k, s] : got) a += vf::hstr(show(s)) ? show(s) + " " : ""; for (auto& [k, s] : m.m) b += show(s) + " ";
    if (a != b) { bad("contents", "registered spaces are " + a + " expected " + b); return; }
  }
  rep.distinct("states", hstr(show(m)));
  std::vector<const Sp*> all; for (auto& [k, s] : m.m) all.push_back(&s);
  std::map<std::wstring, const IndexSpace*> real; for (auto& s : r) real[s.base_key()] = &s;
  for (auto* s : all) {
    auto& rs = *real.at(s->key); auto n = show(*s);
    std::vector<std::wstring> labels{s->key};
    if (!s->key.empty()) { labels.push_back(s->key + L"_" + std::to_wstring(rng(200))); labels.push_back(s->key + std::to_wstring(1 + rng(200))); }
    for (auto& l : labels) {
      auto* p = r.retrieve_ptr(l); if (!p || show(*p) != n || !r.contains(l)) bad("lookup by label", "retrieve(" + u8(l) + ") = " + (p ? show(*p) : "nothing") + " expected " + n);
      auto* p8 = r.retrieve_ptr(u8(l)); if (!p8 || show(*p8) != n) bad("lookup by label (UTF-8)", u8(l));
    }
    auto* p1 = r.retrieve_ptr(rs.type(), rs.qns()); auto* p2 = r.retrieve_ptr(rs.attr());
    if (!p1 || show(*p1) != n || !p2 || show(*p2) != n || !r.contains(rs) || !r.contains(rs.attr()) || !r.contains(rs.type(), rs.qns())) bad("lookup by attributes", n);
    // base spaces
    bool b = base(s->t) && !(s->q & ~m.d.mask);
    if (r.is_base(rs) != b) bad("is_base", n);
    rep.count("lookups");
  }
  for (int k = 0; k < 3; ++k) {   // absent ones
    int t = rng(64), q = rng(8); if ((r.retrieve_ptr(T(t), Q(q)) != nullptr) != (find(m, t, q) != nullptr) || r.contains(T(t), Q(q)) != (find(m, t, q) != nullptr)) bad("lookup by attributes", "absent " + std::to_string(t) + "," + std::to_string(q));
    std::wstring l(1, L'B' + rng(20)); if (r.contains(l) != (m.m.count(l) > 0)) bad("lookup by label", "absent " + u8(l));
  }
  {
    std::vector<std::pair<int, std::string>> eb; std::set<int> et; for (auto* s : all) { if (base(s->t)) et.insert(s->t); if (base(s->t) && !(s->q & ~m.d.mask)) eb.push_back({s->t, show(*s)}); }
    std::set<std::pair<int, std::string>> es(eb.begin(), eb.end()), gs; auto& bs = r.base_spaces(); bool sorted = true;
    for (std::size_t i = 0; i < bs.size(); ++i) { gs.insert({bs[i].type().to_int32(), show(bs[i])}); if (i && bs[i].type() < bs[i - 1].type()) sorted = false; }
    if (es != gs || gs.size() != bs.size() || !sorted) { std::string x; for (auto& s : bs) x += show(s) + " "; bad("base_spaces", "base_spaces() = " + x); }
    std::vector<int> gt; for (auto& t : r.base_space_types()) gt.push_back(t.to_int32());
    if (gt != std::vector<int>(et.begin(), et.end())) { std::string x; for (auto t : gt) x += std::to_string(t) + " "; bad("base_space_types", "base_space_types() = " + x); }
  }
  // pairs
  for (auto* a : all) for (auto* b : all) {
    if (all.size() > 14 && !rng.chance(14 * 14, all.size() * all.size())) continue;
    auto& ra = *real.at(a->key); auto& rb = *real.at(b->key); auto n = show(*a) + " and " + show(*b);
    bool by_label = rng.chance(1, 3);
    // intersection
    auto gi = attempt([&]() -> std::string { return show(by_label ? r.intersection(a->key, b->key) : r.intersection(ra, rb)); });
    int ti = a->t & b->t, qi = a->q & b->q; std::optional<std::string> ei;
    if (a == b) ei = show(*a);
    else if ((a->q != b->q && !qi) || !ti) ei = show(IndexSpace::null);
    else if (auto* s = find(m, ti, qi)) ei = show(*s);
    if (gi != ei) bad("intersection", "intersection of " + n + " is " + gi.value_or("(refused)") + " expected " + ei.value_or("(refused)"));
    bool disjoint_qn = a->q != b->q && !qi;
    if (!disjoint_qn) { bool ev = ti && find(m, ti, qi); if (attempt_bool([&] { return by_label ? r.valid_intersection(a->key, b->key) : r.valid_intersection(ra, rb); }) != ev) bad("valid_intersection", n); }
    rep.count(ei ? (ti && !disjoint_qn ? "intersections: space" : "intersections: empty") : "intersections: unregistered");
    // union
    auto gu = attempt([&]() -> std::string { return show(by_label ? r.unIon(a->key, b->key) : r.unIon(ra, rb)); });
    std::optional<std::string> eu; int tu = a->t | b->t;
    if (a == b) eu = show(*a); else if (a->q == b->q) { if (auto* s = find(m, tu, a->q)) eu = show(*s); if (eu == show(IndexSpace::null)) eu.reset(); }
    if (gu != eu) bad("union", "union of " + n + " is " + gu.value_or("(refused)") + " expected " + eu.value_or("(refused)"));
    if (a->q == b->q && (a->t & b->t) != b->t && (a->t & b->t) != a->t) { if (attempt_bool([&] { return r.valid_unIon(ra, rb); }) != (int)(find(m, tu, a->q) != nullptr)) bad("valid_unIon", n); rep.count(eu ? "unions: space" : "unions: unregistered"); }
    if (a->t == b->t && (a->q & b->q) != b->q && (a->q & b->q) != a->q && attempt_bool([&] { return r.valid_unIon(ra, rb); }) != (int)(find(m, a->t, a->q | b->q) != nullptr)) bad("valid_unIon", n + " (quantum numbers)");
    // inclusion
    if (includes(ra, rb) != ((a->t & b->t) == b->t && (a->q & b->q) == b->q)) bad("includes", n);
    bool lt = ra < rb, gt = rb < ra; if (lt && gt) bad("space order", n); if ((ra == rb) != (a == b)) bad("space equality", n); if (a != b && !lt && !gt) bad("space order", n + " are equivalent");
    rep.count("pairs");
  }
  // occupancy
  for (auto* s : all) {
    auto& rs = *real.at(s->key); auto n = show(*s);
    if (!s->t) { if (r.is_pure_occupied(rs) || r.is_pure_unoccupied(rs)) bad("occupancy", "null space is neither occupied nor unoccupied"); continue; }
    for (int w = 0; w < 5; ++w) {
      auto* e = model_default(m, w, s->q); auto g = attempt([&]() -> std::string { return show(get_default(r, w, rs.qns())); });
      if (!e && m.d.v[w] == 0 && m.d.byqn[w].count(s->q) == 0) { if (g) bad("default space", "unset default " + std::to_string(w) + " gives " + *g); }
      else if (g.value_or("-") != (e ? show(*e) : "-")) bad("default space", "default " + std::to_string(w) + " at qn " + std::to_string(s->q) + " is " + g.value_or("(refused)") + " expected " + (e ? show(*e) : "(refused)"));
    }
    auto* vo = model_default(m, 0, s->q); auto* co = model_default(m, 2, s->q);
    if (vo) {
      if (attempt_bool([&] { return r.is_pure_occupied(rs); }) != (int)((s->t & ~vo->t) == 0)) bad("is_pure_occupied", n + " occupied " + show(*vo));
      if (attempt_bool([&] { return r.contains_occupied(rs); }) != (int)((s->t & vo->t) != 0)) bad("contains_occupied", n + " occupied " + show(*vo));
      rep.count((s->t & ~vo->t) == 0 ? "occupancy: occupied" : (s->t & vo->t) ? "occupancy: mixed" : "occupancy: unoccupied");
    }
    auto* vp = model_default(m, 0, s->q & m.d.mask);
    if (vp && attempt_bool([&] { return r.is_pure_unoccupied(rs); }) != (int)((s->t & vp->t) == 0)) bad("is_pure_unoccupied", n + " occupied " + show(*vp));
    if (vo && co) {
      int un = co->t & ~vo->t; auto* us = find(m, un, s->q);
      auto g = attempt([&]() -> std::string { return show(r.vacuum_unoccupied_space(rs.qns())); });
      if (g.value_or("-") != (us ? show(*us) : "-")) bad("vacuum_unoccupied_space", "qn " + std::to_string(s->q) + ": " + g.value_or("(refused)"));
      if (us && attempt_bool([&] { return r.contains_unoccupied(rs); }) != (int)((s->t & un) != 0)) bad("contains_unoccupied", n);
      if (us) rep.count("unoccupied spaces checked");
    }
  }
  for (int w = 0; w < 5; ++w) if (get_default(r, w) != m.d.v[w]) bad("default space", "default " + std::to_string(w));
  rep.count("states checked");
}

std::size_t approx(const Mod& m, int t, int q) { std::size_t n = 0; for (auto& [k, s] : m.m) if (s.q == q && base(s.t) && (s.t & t)) n += s.n; return n; }
Field fld(const Mod& m, int t, int q) { for (auto& [k, s] : m.m) if (s.q == q && base(s.t) && (s.t & t) && s.f == Field::Complex) return Field::Complex; return Field::Real; }

void history(Rng& g, long, Reporter& rep) {
  struct Reg { std::shared_ptr<IndexSpaceRegistry> r; std::shared_ptr<std::map<std::wstring, Sp>> m; Defaults d; bool stale = false; };   // m is shared between (documented) shallow copies
  std::vector<Reg> regs; std::string hist;
  auto null = Sp{L"", 0, 0, IndexSpace::null.approximate_size(), IndexSpace::null.field()};
  auto fresh = [&] { Reg x; x.r = std::make_shared<IndexSpaceRegistry>(); x.m = std::make_shared<std::map<std::wstring, Sp>>(); (*x.m)[L""] = null; return x; };
  regs.push_back(fresh());
  bool spin = g.chance(2, 3), extra = spin && g.chance(1, 3); int bits = 2 + g(5);
  auto rq = [&]() -> int { if (!spin) return 0; int q = g.pick(std::vector<int>{3, 3, 1, 2}); if (extra && g.chance(1, 4)) q |= 4; return q; };
  auto rkey = [&]() -> std::wstring { std::wstring k(1, L"abcdeghijklmnopqruvwxyz"[g(23)]); if (g.chance(1, 4)) k += L"\u2191"; else if (g.chance(1, 4)) k += L"\u2193"; else if (g.chance(1, 6)) k = L"\u03b1'"; return k; };
  auto rtype = [&]() -> int { return g.chance(1, 2) ? 1 << g(bits) : 1 + g((1 << bits) - 1); };
  long steps = 6 + g(30);
  if (spin && g.chance(3, 4)) { regs[0].r->physical_particle_attribute_mask(bitset_t(3)); regs[0].d.mask = 3; hist += "mask(3); "; }
  for (long k = 0; k < steps; ++k) {
    auto& x = regs[g(regs.size())]; auto tag = "#" + std::to_string(&x - regs.data()) + ".";
    Mod m{*x.m, x.d};
    int op = g(20); std::string what; int expected = 1; bool threw = false;   // expected: 1 succeeds, 0 throws
    auto touch = [&] { for (auto& y : regs) if (y.m == x.m && &y != &x) y.stale = true; };   // a shallow copy keeps no memo of what others change
    try {
      if (op < 8) {   // add
        Sp s{rkey(), rtype(), rq(), 1 + (std::size_t)g(30), g.chance(1, 4) ? Field::Real : Field::Complex};
        what = "add(" + show(s) + ")"; expected = !(m.m.count(s.key) || find(m, s.t, s.q));
        int form = g(3);
        if (form == 0) x.r->add(IndexSpace(s.key, T(s.t), Q(s.q), s.n, s.f)); else if (form == 1) x.r->add(s.key, T(s.t), Q(s.q), (unsigned long)s.n, s.f); else x.r->add(u8(s.key), T(s.t), s.f, (unsigned long)s.n, Q(s.q));
        (*x.m)[s.key] = s; touch();
      } else if (op < 11) {   // union / intersection of registered ones
        std::vector<Sp> v; for (auto& [kk, s] : m.m) if (s.t) v.push_back(s); if (v.size() < 2) continue;
        auto a = g.pick(v), b = g.pick(v), c = g.pick(v); bool three = g.chance(1, 3), un = g.chance(2, 3); auto key = rkey();
        int t = un ? a.t | b.t : a.t & b.t, q = un ? a.q | b.q : a.q & b.q; if (three) { t = un ? t | c.t : t & c.t; q = un ? q | c.q : q & c.q; }
        if (base(t) || !t) continue;   // outside: an intersection that is a base space has no size to take
        std::size_t n = approx(m, t, q); Field f = fld(m, t, q);
        what = std::string(un ? "add_union(" : "add_intersection(") + u8(key) + ";" + u8(a.key) + "," + u8(b.key) + (three ? "," + u8(c.key) : "") + ")"; expected = !(m.m.count(key) || find(m, t, q));
        if (un) { if (three) x.r->add_union(key, {a.key, b.key, c.key}); else x.r->add_union(key, {x.r->retrieve(a.key), x.r->retrieve(b.key)}); }
        else { if (three) x.r->add_intersection(key, {a.key, b.key, c.key}); else x.r->add_intersection(key, {a.key, b.key}); }
        (*x.m)[key] = Sp{key, t, q, n, f}; touch();
      } else if (op < 13) {   // remove
        std::vector<Sp> v; for (auto& [kk, s] : m.m) if (s.t) v.push_back(s); if (v.empty()) continue; auto s = g.pick(v);
        what = "remove(" + u8(s.key) + ")"; if (g.chance(1, 2)) x.r->remove(s.key); else x.r->remove(IndexSpace(x.r->retrieve(s.key))); x.m->erase(s.key); touch();
      } else if (op == 13) {   // replace
        std::vector<Sp> v; for (auto& [kk, s] : m.m) if (s.t) v.push_back(s); if (v.empty()) continue; auto s = g.pick(v); s.t = rtype(); s.n = 1 + g(30); auto m2 = m; m2.m.erase(s.key); if (find(m2, s.t, s.q)) continue;
        what = "replace(" + show(s) + ")"; x.r->replace(IndexSpace(s.key, T(s.t), Q(s.q), s.n, s.f)); (*x.m)[s.key] = s; touch();
      } else if (op == 14) {   // defaults
        int w = g(5); if (g.chance(2, 3)) { std::vector<Sp> v; for (auto& [kk, s] : m.m) if (s.t) v.push_back(s); int t = v.empty() || g.chance(1, 8) ? rtype() : g.pick(v).t; bool have = false; for (auto& [kk, s] : m.m) have |= s.t == t; expected = have; what = "default" + std::to_string(w) + "(" + std::to_string(t) + ")"; set_default(*x.r, w, T(t)); x.d.v[w] = t; }
        else { container::map<Q, T> qt; std::map<int, int> mt; std::vector<Sp> v; for (auto& [kk, s] : m.m) if (s.t) v.push_back(s); if (v.empty()) continue; for (int i = 0; i < 2; ++i) { auto s = g.pick(v); if (mt.count(s.q)) continue; qt.emplace(Q(s.q), T(s.t)); mt[s.q] = s.t; } what = "default" + std::to_string(w) + "(by qn)"; set_default(*x.r, w, qt); x.d.byqn[w] = mt; }
      } else if (op == 15) { int mk = g.pick(std::vector<int>{0, 3, 7, 1}); what = "mask(" + std::to_string(mk) + ")"; x.r->physical_particle_attribute_mask(bitset_t(mk)); x.d.mask = mk; }
      else if (op == 16) { what = "clear"; x.r->clear(); x.m = std::make_shared<std::map<std::wstring, Sp>>(); (*x.m)[L""] = null; x.d = {}; x.stale = false; }
      else if (op == 17 && regs.size() < 4) { what = "clone"; Reg y; y.r = std::make_shared<IndexSpaceRegistry>(x.r->clone()); y.m = std::make_shared<std::map<std::wstring, Sp>>(*x.m); y.d = x.d; regs.push_back(y); rep.count("clones"); }
      else if (op == 18 && regs.size() < 4) { what = "copy"; Reg y; y.r = std::make_shared<IndexSpaceRegistry>(*x.r); y.m = x.m; y.d = x.d; regs.push_back(y); rep.count("copies"); }
      else if (op == 19 && regs.size() > 1) { auto& y = regs[g(regs.size())]; if (&y == &x) continue; what = "assign #" + std::to_string(&y - regs.data()); if (g.chance(1, 2)) { *x.r = *y.r; } else { *x.r = IndexSpaceRegistry(*y.r); } x.m = y.m; x.d = y.d; x.stale = false; rep.count("assignments"); }
      else continue;
    } catch (const std::exception&) { threw = true; }
    hist += (regs.size() > 1 ? "" : "") + what + (threw ? "!" : "") + "; ";
    rep.count("op " + what.substr(0, what.find_first_of("(0123456789 ")));
    if (threw == (bool)expected) { rep.violation(threw ? "unexpected refusal" : "missing refusal", hist + "\n  registry: " + show(m)); return; }
    if (threw) rep.count("refusals");
    if (rep.any_violation()) return;
    if (g.chance(1, 3) || k + 1 == steps || op >= 15) for (auto& y : regs) if (!y.stale) check(*y.r, Mod{*y.m, y.d}, g, rep, hist);
  }
  for (std::size_t i = 0; i < regs.size(); ++i) for (std::size_t j = 0; j < regs.size(); ++j) {
    auto key = [](auto& m) { std::string s; for (auto& [k, v] : m) s += u8(k) + ":" + std::to_string(v.t) + "," + std::to_string(v.q) + ";"; return s; };
    auto defs = [](auto& d) { std::string s = std::to_string(d.mask); for (auto v : d.v) s += "," + std::to_string(v); for (auto& b : d.byqn) { s += "|"; for (auto& [q, t] : b) s += std::to_string(q) + ":" + std::to_string(t) + ";"; } return s; };
    if ((*regs[i].r == *regs[j].r) != (key(*regs[i].m) == key(*regs[j].m) && defs(regs[i].d) == defs(regs[j].d))) rep.violation("registry equality", hist);
  }
  rep.distinct("nontrivial", hstr(hist)); rep.sample("history", hist);
}

std::shared_ptr<IndexSpaceRegistry> conv(int which, mbpt::SpinConvention s) {
  switch (which) { case 0: return mbpt::make_min_sr_spaces(s); case 1: return mbpt::make_sr_spaces(s); case 2: return mbpt::make_min_mr_spaces(s); case 3: return mbpt::make_mr_spaces(s); case 4: return mbpt::make_F12_sr_spaces(s); case 5: return mbpt::make_legacy_spaces(s); case 6: return mbpt::make_fermi_and_bose_spaces(s).first; default: return mbpt::make_fermi_and_bose_spaces(s).second; }
}
// every built-in convention: exhaustive pairwise algebra plus what its documentation promises
void conventions(Rng& g, long n, Reporter& rep) {
  int which = n % 8, sp = (n / 8) % 3, ext = n / 24; auto sc = sp == 0 ? mbpt::SpinConvention::Default : sp == 1 ? mbpt::SpinConvention::None : mbpt::SpinConvention::Legacy;
  auto r = conv(which, sc); std::string hist = "convention " + std::to_string(which) + " spin " + std::to_string(sp);
  bool bose = which == 7;
  if (ext) { if (which != 6 && which != 7) { if (ext == 1) { mbpt::add_df_spaces(r); mbpt::add_batching_spaces(r); } else { mbpt::add_thc_spaces(r); mbpt::add_ao_spaces(r, which == 1 || which == 4, which == 4); if (which != 3 && which != 2) mbpt::add_pao_spaces(r); } } hist += " ext " + std::to_string(ext); }
  auto m = read(*r);
  auto bad = [&](const std::string& what, const std::string& d) { rep.violation(what, d + "\n  registry: " + show(m) + "\n  " + hist); };
  for (int k = 0; k < 3; ++k) check(*r, m, g, rep, hist);
  int any = sp == 2 ? 0 : 3;
  for (auto& [k, s] : m.m) if (s.t && !(s.q & ~3)) {
    // composite spaces are unions of registered base spaces with the same spin
    int cover = 0; for (auto& [k2, b] : m.m) if (base(b.t) && b.q == s.q && (b.t & s.t) == b.t) cover |= b.t;
    if (cover != s.t) bad("composite space is a union of base spaces", show(s));
    if (!base(s.t) && s.n != approx(m, s.t, s.q)) bad("size of a composite space", show(s));
  }
  if (sp == 0 && !bose) for (auto& [k, s] : m.m) if (s.t && s.q == 3 && !k.empty() && k != L"\u03b2") {
    auto up = find(m, s.t, 1), dn = find(m, s.t, 2); if (!up || !dn) { bad("spin counterparts", show(s)); continue; }
    if (up->n != s.n || dn->n != s.n || up->f != s.f || dn->f != s.f) bad("spin counterparts", show(s) + " vs " + show(*up) + " " + show(*dn));
    if (mbpt::spinannotation_add(k, mbpt::Spin::alpha) != up->key || mbpt::spinannotation_remove(up->key) != k || mbpt::spinannotation_remove(dn->key) != k) bad("spin annotation", show(*up));
    auto &rs = r->retrieve(k), &ru = r->retrieve(up->key), &rd = r->retrieve(dn->key);
    if (!(r->intersection(rs, ru) == ru) || !(r->intersection(ru, rs) == ru) || r->intersection(ru, rd) != IndexSpace::null) bad("spin intersections", show(s));
    rep.count("spin triples");
  }
  if (!bose) for (int w = 0; w < 5; ++w) if (!m.d.v[w]) bad("default space missing", std::to_string(w));
  if (!bose) { if ((m.d.v[0] & ~m.d.v[2]) || (m.d.v[1] & ~m.d.v[2]) || (m.d.v[3] & ~m.d.v[2]) || (m.d.v[4] & ~m.d.v[2])) bad("defaults lie inside the complete space", ""); if (which != 2 && which != 3 && (m.d.v[3] & m.d.v[4])) bad("hole and particle spaces overlap", ""); for (auto& [k, s] : m.m) if (s.q == any && (s.t & ~m.d.v[2]) && k != L"\u03b2") bad("space outside the complete space", show(s)); }
  rep.distinct("nontrivial", hstr(hist)); rep.count("conventions");
}
// add_fermi_spin on a hand-made registry
void spin_up(Rng& g, long, Reporter& rep) {
  IndexSpaceRegistry r; r.physical_particle_attribute_mask(bitset_t(3)); int n = 2 + g(4); std::string hist;
  for (int i = 0; i < n; ++i) { Sp s{std::wstring(1, L'a' + i), 1 << i, 3, 1 + (std::size_t)g(40), g.chance(1, 2) ? Field::Real : Field::Complex}; r.add(s.key, T(s.t), Q(s.q), (unsigned long)s.n, s.f); hist += show(s) + " "; }
  r.add_union(L"p", {L"a", L"b"}, is_complete); r.vacuum_occupied_space(L"a"); r.reference_occupied_space(L"a"); r.hole_space(L"a"); r.particle_space(L"b");
  auto m0 = read(r); if (g.chance(1, 2)) { r.base_spaces(); r.base_space_types(); }
  mbpt::add_fermi_spin(r); Mod e = m0;
  for (auto& [k, s] : m0.m) if (s.t) for (int q : {1, 2}) { Sp x = s; x.key = k + (q == 1 ? L"\u2191" : L"\u2193"); x.q = q; e.m[x.key] = x; }
  check(r, e, g, rep, "add_fermi_spin: " + hist); rep.distinct("nontrivial", hstr(hist)); rep.count("add_fermi_spin");
}
}  // namespace
int main(int argc, char** argv) {
  setup_common();
  Suite s("C16");
  s.add("history", 6000, 200000, history);
  s.add("fermi_spin", 600, 10000, spin_up);
  s.fixed("conventions", 72, conventions);
  return s.main(argc, argv);
}
