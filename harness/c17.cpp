// C17: an index is what its label says, generated indices are unique, and default contexts are scoped.
#include "common/gen.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/utility/string.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <iostream>
#include <optional>
#include <thread>
using namespace vf;
using namespace sequant;
namespace {
struct MI { std::wstring key; int q = 0; std::optional<int> ord; std::vector<MI> protos; bool sym = true; };   // model of an index
std::wstring lab(const MI& m) { return m.key + (m.ord ? L"_" + std::to_wstring(*m.ord) : L""); }
std::wstring full(const MI& m) { auto r = lab(m); if (!m.protos.empty()) { r += L"<"; for (std::size_t i = 0; i < m.protos.size(); ++i) r += (i ? L", " : L"") + full(m.protos[i]); r += L">"; } return r; }
auto isr() { return get_default_context().index_space_registry(); }
const std::vector<std::wstring> keys{L"i", L"a", L"p", L"m", L"x", L"i\u2191", L"a\u2193", L"p\u2191", L"o", L"g"};
std::tuple<int, int, int> rank_of(const MI& m) { auto& s = isr()->retrieve(m.key); return {s.qns().to_int32(), s.type().to_int32(), m.ord ? *m.ord : -1}; }
bool less(const MI& a, const MI& b) {   // order: quantum numbers, type, ordinal (none first), proto indices
  auto x = rank_of(a), y = rank_of(b); if (x != y) return x < y;
  return std::lexicographical_compare(a.protos.begin(), a.protos.end(), b.protos.begin(), b.protos.end(), less);
}
bool same(const MI& a, const MI& b) { return !less(a, b) && !less(b, a); }
MI plain(Rng& g) { MI m; m.key = g.pick(keys); if (!g.chance(1, 6)) m.ord = g.chance(1, 2) ? g(5) : g(100); return m; }
void norm(MI& m) { if (m.sym) std::stable_sort(m.protos.begin(), m.protos.end(), less); }
MI random(Rng& g) { MI m = plain(g); if (g.chance(1, 3)) { int n = 1 + g(3); for (int k = 0; k < n; ++k) { auto p = plain(g); bool dup = false; for (auto& x : m.protos) dup |= same(x, p); if (!dup) m.protos.push_back(p); } m.sym = g.chance(3, 4); norm(m); } return m; }
std::wstring spelled(const MI& m, Rng& g, bool& canonical) { canonical = true; if (!m.ord) return m.key; switch (g(4)) { case 0: canonical = false; return m.key + std::to_wstring(*m.ord); case 1: canonical = false; return m.key + L"_0" + std::to_wstring(*m.ord); default: return lab(m); } }
Index build(const MI& m, Rng& g) {   // through a random public constructor
  bool canon;
  auto s = spelled(m, g, canon); auto& sp = isr()->retrieve(m.key);
  if (m.protos.empty()) switch (g(9)) {
    case 0: return Index(s);
    case 1: return Index(std::wstring(s));
    case 2: return Index(std::wstring_view(s));
    case 3: return Index(s.c_str());
    case 4: return Index(toUtf8(s));
    case 5: return m.ord ? Index(sp, *m.ord) : Index(sp);
    case 6: return m.ord ? Index(sp, std::optional<int>(*m.ord)) : Index(sp, std::optional<int>{});
    case 7: return Index(s, sp);
    default: return Index(Index(s), Index::index_vector{});
  }
  Index::index_vector pv; for (auto& p : m.protos) pv.push_back(build(p, g));
  if (m.sym) g.shuffle(pv);
  switch (g(6)) {
    case 0: return Index(s, pv, m.sym);
    case 1: return Index(std::wstring(s), pv, m.sym);
    case 2: return Index(Index(s), pv, m.sym);
    case 3: return m.ord ? Index(sp, *m.ord, pv, m.sym) : Index(sp, pv, m.sym);
    case 4: if (pv.size() == 2) return Index(s, {pv[0], pv[1]}, m.sym); return Index(std::wstring(s), {pv[0]}, m.sym).full_label().empty() ? Index{} : Index(s, pv, m.sym);
    default: if (pv.size() == 2) { std::wstring a(pv[0].label()), b(pv[1].label()); return Index(std::wstring(s), {a, b}, m.sym); } return Index(toUtf8(s), pv, m.sym);
  }
}
void check(const Index& x, const MI& m, Reporter& rep, const std::string& hist) {
  auto bad = [&](const std::string& w, const std::string& d) { rep.violation(w, d + " for " + toUtf8(full(m)) + "\n  history: " + hist); };
  auto& sp = isr()->retrieve(m.key);
  if (x.label() != lab(m)) bad("label", "label() = " + toUtf8(x.label()));
  if (x.full_label() != full(m)) bad("full label", "full_label() = " + toUtf8(x.full_label()));
  if (x.to_string() != toUtf8(lab(m))) bad("to_string", x.to_string());
  if (!(x.space() == sp)) bad("space", to_string(x.space()));
  if (x.space().field() != sp.field() || x.space().approximate_size() != sp.approximate_size()) bad("space data", to_string(x.space()));
  if (x.ordinal().has_value() != m.ord.has_value() || (m.ord && *x.ordinal() != (unsigned)*m.ord)) bad("ordinal", "");
  if (x.has_proto_indices() != !m.protos.empty() || x.proto_indices().size() != m.protos.size()) { bad("proto indices", "number"); return; }
  for (std::size_t i = 0; i < m.protos.size(); ++i) if (x.proto_indices()[i].full_label() != full(m.protos[i])) bad("proto indices", toUtf8(x.full_label()));
  if (!m.protos.empty() && x.symmetric_proto_indices() != m.sym) bad("symmetry of proto indices", "");
  if (!x.nonnull()) bad("nonnull", "");
  Index copy(x); if (copy.label() != x.label() || copy.full_label() != x.full_label() || copy != x || hash_value(copy) != hash_value(x)) bad("copy", toUtf8(copy.full_label()));
  // reading the label back gives the index (without proto indices)
  if (Index(x.label()) != Index(sp, m.ord)) bad("label reads back", toUtf8(x.label()));
  if (Index::base_label(x.label()) != m.key) bad("base_label", toUtf8(Index::base_label(x.label())));
  auto go = Index::get_ordinal(x.label()); if (go.has_value() != m.ord.has_value() || (m.ord && *go != (std::size_t)*m.ord)) bad("get_ordinal", "");
  { std::wstring pad(x.label()); auto n = pad.size(); pad += L"77"; auto g2 = Index::get_ordinal(std::wstring_view(pad).substr(0, n)); if (g2 != go) bad("get_ordinal", "of a view inside a longer string"); }
  rep.count("indices checked");
}
void index_case(Rng& g, long, Reporter& rep) {
  setup_sr();
  std::vector<std::pair<Index, MI>> pool; std::string hist;
  long n = 4 + g(5);
  for (long k = 0; k < n; ++k) {
    MI m = random(g); hist += toUtf8(full(m)) + (m.sym ? "" : "(ns)") + "; ";
    try { Index x = build(m, g); pool.emplace_back(x, m); check(x, m, rep, hist); } catch (const Discard&) { throw; } catch (const std::exception& e) { rep.violation("constructor refuses a valid index", hist + e.what()); return; }
  }
  for (long k = 0; k < 12; ++k) {
    auto& [x, m] = pool[g(pool.size())]; if (g.chance(1, 2)) x.label(); if (g.chance(1, 2)) x.full_label();
    int op = g(9);
    switch (op) {
      case 0: { MI t = m; t.protos.clear(); check(x.drop_proto_indices(), t, rep, hist + "drop_proto_indices"); rep.count("drop_proto_indices"); break; }
      case 1: { MI t = m; t.key = g.pick(keys); norm(t); check(x.replace_space(isr()->retrieve(t.key)), t, rep, hist + "replace_space"); break; }
      case 2: { MI t = m; t.key = g.pick(keys); Index y(x); y.label(); y.full_label(); check(Index(std::move(y), isr()->retrieve(t.key)), t, rep, hist + "Index(Index&&, space)"); break; }
      case 3: { auto& [y, my] = pool[g(pool.size())]; x = y; m = my; check(x, m, rep, hist + "copy assignment"); break; }
      case 4: { auto& [y, my] = pool[g(pool.size())]; Index z(y); if (g.chance(1, 2)) z.full_label(); x = std::move(z); m = my; check(x, m, rep, hist + "move assignment"); if (z.nonnull() && z != Index::null) rep.violation("moved-from index is not null", hist); break; }
      case 5: { auto& a = pool[g(pool.size())]; auto& b = pool[g(pool.size())]; if (&a == &b) break; swap(a.first, b.first); std::swap(a.second, b.second); check(a.first, a.second, rep, hist + "swap"); check(b.first, b.second, rep, hist + "swap"); break; }
      case 6: {   // transform: the index itself, else its proto indices, simultaneously
        std::map<Index, Index> im; std::vector<std::pair<MI, MI>> mm;
        auto put = [&](const MI& a, const MI& b) { for (auto& p : mm) if (same(p.first, a)) return; mm.push_back({a, b}); im.emplace(build(a, g), build(b, g)); };
        int cnt = 1 + g(3); for (int c = 0; c < cnt; ++c) { MI b = plain(g); if (!m.protos.empty() && g.chance(2, 3)) put(g.pick(m.protos), b); else if (g.chance(1, 2)) put(m, random(g)); else put(plain(g), b); }
        MI t = m; bool hit = false; auto look = [&](MI& z) { for (auto& p : mm) if (same(p.first, z)) { z = p.second; return true; } return false; };
        bool any = look(t); hit = any;
        if (!any) { for (auto& p : t.protos) any |= look(p); bool dup = false; for (std::size_t i = 0; i < t.protos.size(); ++i) for (std::size_t j = 0; j < i; ++j) dup |= same(t.protos[i], t.protos[j]); if (dup) break; norm(t); if (any) look(t); }
        Index y(x); y.reset_tag(); bool r = y.transform(im); y.reset_tag(); if (r != any) rep.violation("transform", hist + " reports " + (r ? "a" : "no") + " change");
        check(y, t, rep, hist + "transform"); rep.count(hit ? "transform: index" : any ? "transform: proto indices" : "transform: nothing"); break;
      }
      case 7: { IndexFactory f; Index y = f.make(x); MI t = m; t.ord = (int)y.ordinal().value_or(0); if (*t.ord < (int)Index::min_tmp_index()) rep.violation("generated ordinal", hist); if (y.proto_indices() != x.proto_indices() || y.space() != x.space() || (y.has_proto_indices() && y.symmetric_proto_indices() != x.symmetric_proto_indices())) rep.violation("IndexFactory::make(Index) keeps space and proto indices", toUtf8(y.full_label()) + " from " + toUtf8(x.full_label())); break; }
      default: { Index y = Index::make_tmp_index(x.space(), Index::index_vector(x.proto_indices()), x.symmetric_proto_indices()); auto z = y.drop_proto_indices(); if (z.has_proto_indices() || z.ordinal() != y.ordinal() || z.space() != y.space() || y.proto_indices() != x.proto_indices()) rep.violation("make_tmp_index/drop_proto_indices", toUtf8(y.full_label())); if (z.replace_space(isr()->retrieve(L"p")).ordinal() != z.ordinal()) rep.violation("replace_space of a generated index", ""); rep.count("generated indices"); }
    }
  }
  // relations
  for (auto& [x, m] : pool) for (auto& [y, my] : pool) {
    bool s = same(m, my);
    if ((x == y) != s || (x != y) == s) rep.violation("equality", toUtf8(x.full_label()) + " vs " + toUtf8(y.full_label()));
    if (s && hash_value(x) != hash_value(y)) rep.violation("hash", toUtf8(x.full_label()));
    if ((x < y) != less(m, my)) rep.violation("order", toUtf8(x.full_label()) + " vs " + toUtf8(y.full_label()));
    if (Index::FullLabelCompare{}(x, y) && Index::FullLabelCompare{}(y, x)) rep.violation("full label order", "");
    if ((!Index::FullLabelCompare{}(x, y) && !Index::FullLabelCompare{}(y, x)) != s) rep.violation("full label order and equality", toUtf8(x.full_label()) + " vs " + toUtf8(y.full_label()));
    bool sl = lab(m) == lab(my); if ((!Index::LabelCompare{}(x, y) && !Index::LabelCompare{}(y, x)) != sl) rep.violation("label order and equality", toUtf8(x.label()) + " vs " + toUtf8(y.label()));
    if (s && x.color() != y.color()) rep.violation("color", "");
    rep.count("relations");
  }
  rep.distinct("nontrivial", hstr(hist)); rep.sample("index", hist);
}
// malformed or reserved labels are refused with a library exception
void malformed(Rng& g, long, Reporter& rep) {
  setup_sr();
  static const std::vector<std::wstring> l{L"i_", L"i_x", L"i_1x", L"i1_", L"_", L"_1", L"", L"i_-1", L"i_99999999999999999999", L"i_100", L"i_4294967297", L"q_1", L"\u2191", L"i\u2191\u2191_1", L"i_1<", L"i _1", L"i_ 1", L"1", L"12", L"i_\u2191"};
  std::wstring s = g.pick(l);
  if (g.chance(1, 3)) { s.clear(); int n = g(5); for (int k = 0; k < n; ++k) s += L"ia_1290\u2191<, x"[g(12)]; }
  bool valid = false;   // base label registered, then nothing, or optional underscore and a number below the reserved ones
  { auto e = s.find(L'_'); if (e == std::wstring::npos) { e = 0; while (e < s.size() && !(std::iswdigit(s[e]))) ++e; if (e == 0) e = s.size(); } auto b = s.substr(0, e), o = s.substr(e); if (!b.empty() && isr()->contains(b) && isr()->retrieve(b).base_key() == b) { if (o.empty()) valid = true; else { if (o[0] == L'_') o = o.substr(1); valid = !o.empty() && o.size() < 9; for (auto c : o) valid &= c >= L'0' && c <= L'9'; if (valid) valid = std::stol(o) < 100; } } }
  if (s.empty() || s[0] == L'_') throw Discard{};   // the empty base label denotes the null space
  auto attempt = [&](auto&& f) { try { f(); return true; } catch (const Exception&) { return false; } };
  try {
    bool r[4] = {attempt([&] { Index x(s); }), attempt([&] { Index x(toUtf8(s)); }), attempt([&] { Index x(s, Index::index_vector{Index(L"i_7")}); }), attempt([&] { Index x(s.c_str()); })};
    for (auto b : r) if (b != valid) rep.violation(b ? "malformed label accepted" : "valid label refused", "'" + toUtf8(s) + "'");
    rep.count(valid ? "accepted" : "refused");
  } catch (const std::exception& e) { rep.violation("foreign exception", "'" + toUtf8(s) + "': " + e.what()); }
  if (g.chance(1, 4)) { auto& sp = isr()->retrieve(L"i"); int o = g.pick(std::vector<int>{-1, 100, 150, -100000}); bool ok = attempt([&] { Index x(sp, o); }); if (ok) rep.violation("malformed ordinal accepted", std::to_string(o)); rep.count("ordinals refused"); }
  if (g.chance(1, 4)) { Index p(L"i_3"); bool ok = attempt([&] { Index x(L"a_1", Index::index_vector{p, Index(L"a_2"), p}, g.chance(1, 2)); }); if (ok) rep.violation("duplicate proto indices accepted", ""); }
  rep.distinct("malformed", hstr(toUtf8(s)));
}
// generated indices are unique, also across threads and contexts
void generated(Rng& g, long, Reporter& rep) {
  setup_sr();
  int nt = 1 + g(6), per = 1 + g(60); auto reg = isr();
  std::vector<std::wstring> ks{L"i", L"a", L"p"}; std::vector<std::vector<Index>> out(nt);
  int mode = g(3); std::set<std::size_t> banned; for (int k = 0; k < 10; ++k) banned.insert(100 + g(40));
  std::size_t minidx = g.chance(1, 2) ? 100 : 1 + g(50);
  IndexFactory f = mode == 2 ? IndexFactory{} : IndexFactory{};
  IndexFactory fv([&banned](const Index& x) { return !banned.count(*x.ordinal()); }, minidx);
  std::vector<u64> seeds; for (int t = 0; t < nt; ++t) seeds.push_back(g.next());
  auto& fac = mode == 2 ? f : fv;
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { Rng r(seeds[t]); for (int k = 0; k < per; ++k) { auto& sp = reg->retrieve(ks[r(3)]); if (mode == 0) out[t].push_back(Index::make_tmp_index(sp)); else if (r.chance(1, 2)) out[t].push_back(fac.make(sp)); else out[t].push_back(fac.make(Index(sp, 1))); } });
  for (auto& t : th) t.join();
  std::set<std::wstring> seen;
  for (auto& v : out) for (auto& x : v) {
    if (!seen.insert(std::wstring(x.label())).second) rep.violation("generated index repeated", toUtf8(x.label()) + " mode " + std::to_string(mode));
    std::size_t lo = mode == 1 ? minidx : 100; if (*x.ordinal() < lo) rep.violation("generated ordinal too small", toUtf8(x.label()));
    if (mode == 1 && banned.count(*x.ordinal())) rep.violation("generated index fails its validator", toUtf8(x.label()));
  }
  rep.count("unique generated indices", seen.size()); if (nt > 1) rep.count("concurrent generators");
  if (g.chance(1, 3)) {   // a context that reserves other ordinals
    std::size_t first = 100 + g(5000); auto c = get_default_context(); c.set_first_dummy_index_ordinal(first); auto rs = set_scoped_default_context(c);
    if (g.chance(1, 3)) Index::reset_tmp_index();
    for (int k = 0; k < 3; ++k) { auto x = Index::make_tmp_index(isr()->retrieve(L"i")); if (*x.ordinal() < first) rep.violation("generated ordinal below the context's first dummy ordinal", toUtf8(x.label()) + " first " + std::to_string(first)); }
    try { Index y(isr()->retrieve(L"a"), first - 1); } catch (const std::exception& e) { rep.violation("ordinal below the first dummy ordinal refused", e.what()); }
    bool refused = false; try { Index y(isr()->retrieve(L"a"), first); } catch (const Exception&) { refused = true; } if (!refused) rep.violation("reserved ordinal accepted", std::to_string(first));
    rep.count("contexts with other reserved ordinals");
  }
  rep.distinct("nontrivial", hstr(std::to_string(nt) + "," + std::to_string(per) + "," + std::to_string(mode) + "," + std::to_string(seeds[0])));
}
// default contexts
std::string dump(const Context& c) {
  std::string r = std::to_string((int)c.vacuum()) + std::to_string((int)c.metric()) + std::to_string((int)c.spbasis()) + std::to_string(c.assert_strict_braket_symmetry()) + "," + std::to_string(c.first_dummy_index_ordinal()) + "," + std::to_string((int)c.braket_typesetting()) + std::to_string((int)c.braket_slot_typesetting());
  auto o = c.canonicalization_options(); r += o ? "[" + std::to_string((int)o->method) + "]" : "[]"; r += "@" + std::to_string(reinterpret_cast<std::uintptr_t>(c.index_space_registry().get()));
  if (auto s = c.index_space_registry()) r += ":" + std::to_string(s->vacuum_occupied_space(true).to_int32()) + "/" + std::to_string(s->complete_space(true).to_int32());
  return r;
}
std::string dump(const mbpt::Context& c) { std::string r = std::to_string((int)c.csv()); try { r += "@" + std::to_string(reinterpret_cast<std::uintptr_t>(c.op_registry().get())); for (auto& o : *c.op_registry()) r += toUtf8(o.first) + std::to_string((int)o.second); } catch (const std::exception&) { r += "none"; } return r; }
void contexts(Rng& g, long, Reporter& rep) {
  reset_default_context(); mbpt::reset_default_mbpt_context();
  std::vector<std::shared_ptr<IndexSpaceRegistry>> regs{nullptr, mbpt::make_min_sr_spaces(), mbpt::make_sr_spaces(), mbpt::make_mr_spaces()};
  { auto [f, b] = mbpt::make_fermi_and_bose_spaces(); regs.push_back(f); regs.push_back(b); }
  std::vector<std::shared_ptr<mbpt::OpRegistry>> ors{nullptr, mbpt::make_minimal_registry(), mbpt::make_legacy_registry(), mbpt::make_minimal_registry()};
  auto rc = [&] { Context c({.index_space_registry_shared_ptr = g.pick(regs), .vacuum = g.chance(2, 3) ? Vacuum::SingleProduct : Vacuum::Physical, .first_dummy_index_ordinal = (std::size_t)(g.chance(3, 4) ? 100 : 50 + g(3))}); if (g.chance(1, 3)) c.set(SPBasis::Spinfree); if (g.chance(1, 4)) c.set(CanonicalizeOptions{.method = g.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological}); if (g.chance(1, 5)) c.set(BraKetTypesetting::CoSub == c.braket_typesetting() ? BraKetTypesetting::ContraSub : BraKetTypesetting::CoSub); return c; };
  auto rm = [&] { return mbpt::Context({.csv = g.chance(1, 2) ? mbpt::CSV::Yes : mbpt::CSV::No, .op_registry_ptr = g.pick(ors)}); };
  using Map = std::map<Statistics, std::string>; const std::vector<Statistics> stats{Statistics::Arbitrary, Statistics::FermiDirac, Statistics::BoseEinstein};
  Map model; std::string mb = dump(mbpt::Context()); std::string hist; long steps = 0; Context fresh;
  auto verify = [&](const std::string& where) {
    if (!model.count(Statistics::Arbitrary)) { /* created on demand */ }
    for (auto s : stats) { std::string e = model.count(s) ? model[s] : model.count(Statistics::Arbitrary) ? model[Statistics::Arbitrary] : dump(fresh); auto d = dump(get_default_context(s)); if (d != e) { rep.violation("default context", where + ": statistics " + std::to_string((int)s) + " is " + d + " expected " + e + "\n  history: " + hist); return false; } if (!model.count(s) && !model.count(Statistics::Arbitrary)) model[Statistics::Arbitrary] = dump(fresh); }
    if (dump(mbpt::get_default_mbpt_context()) != mb) { rep.violation("default mbpt context", where + ": " + dump(mbpt::get_default_mbpt_context()) + " expected " + mb + "\n  history: " + hist); return false; }
    rep.count("context states"); return true;
  };
  std::function<bool(int)> scope = [&](int depth) -> bool {
    int n = 1 + g(4);
    for (int k = 0; k < n && steps < 40; ++k, ++steps) {
      int op = g(9); hist += std::to_string(op) + "; ";
      try {
        if (op == 0) { auto c = rc(); auto s = g.pick(stats); set_default_context(c, s); model[s] = dump(c); }
        else if (op == 1) { auto c = rm(); mbpt::set_default_mbpt_context(c); mb = dump(c); }
        else if (op == 2 && g.chance(1, 4)) { reset_default_context(); model.clear(); }
        else if (op == 3 && g.chance(1, 4)) { mbpt::reset_default_mbpt_context(); mb = dump(mbpt::Context()); }
        else if (op == 4) { container::map<Statistics, Context> m; for (auto s : stats) if (g.chance(1, 2)) { auto c = rc(); m.emplace(s, c); model[s] = dump(c); } set_default_context(m); }
        else if (depth < 4 && op <= 7) {
          auto saved = model; auto smb = mb; hist += "{ ";
          { verify("before scope"); saved = model;
            if (op == 7) { auto c = g.chance(1, 3) ? mbpt::Context(mbpt::get_default_mbpt_context()) : rm(); auto r = mbpt::set_scoped_default_mbpt_context(c); mb = dump(c); if (!verify("entering mbpt scope") || !scope(depth + 1)) return false; }
            else if (op == 5) { auto c = g.chance(1, 3) ? Context(get_default_context()) : rc(); auto r = set_scoped_default_context(c); model.clear(); model[Statistics::Arbitrary] = dump(c); if (!verify("entering scope") || !scope(depth + 1)) return false; }
            else { container::map<Statistics, Context> m; model.clear(); for (auto s : stats) if (s == Statistics::Arbitrary || g.chance(1, 2)) { auto c = rc(); m.emplace(s, c); model[s] = dump(c); } auto r = set_scoped_default_context(m); if (!verify("entering scope") || !scope(depth + 1)) return false; }
          }
          if (op == 7) { auto keep = model; mb = smb; model = keep; } else { model = saved; }
          hist += "} "; rep.count("scopes");
        }
        else if (op == 8) { auto& c = get_default_context(); Context d(c); if (!(d == c) || d != c) rep.violation("context equality", "copy differs\n  history: " + hist); auto e = rc(); bool q = e == c; if (q && (e.vacuum() != c.vacuum() || e.spbasis() != c.spbasis() || e.first_dummy_index_ordinal() != c.first_dummy_index_ordinal() || dump(e).substr(dump(e).find('@') != std::string::npos ? dump(e).find(':') == std::string::npos ? 0 : dump(e).find(':') : 0) != dump(c).substr(dump(c).find('@') != std::string::npos ? dump(c).find(':') == std::string::npos ? 0 : dump(c).find(':') : 0))) rep.violation("context equality", dump(e) + " equals " + dump(c)); rep.count("context comparisons"); }
      } catch (const std::exception& e) { rep.violation("context operation throws", std::string(e.what()) + "\n  history: " + hist); return false; }
      if (!verify("after step")) return false;
    }
    return true;
  };
  scope(0);
  rep.distinct("nontrivial", hstr(hist)); rep.sample("contexts", hist);
  reset_default_context(); mbpt::reset_default_mbpt_context(); 
}
}  // namespace
int main(int argc, char** argv) {
  setup_common();
  Suite s("C17");
  s.add("index", 6000, 200000, index_case);
  s.add("malformed", 1500, 20000, malformed);
  s.add("generated", 600, 20000, generated);
  s.add("contexts", 3000, 100000, contexts);
  return s.main(argc, argv);
}
