// C05: serialization round-trips, and malformed text is rejected cleanly.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/expressions/power.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/io/serialization/serialization.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/utility/exception.hpp>
using namespace vf;
using namespace sequant;
namespace ser = sequant::io::serialization;
namespace {
using Sc = Constant::scalar_type;
std::string N(const std::wstring& w) {   // any code point
  std::string o; for (wchar_t wc : w) { auto c = (std::uint32_t)wc;
    if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  return o;
}

// structural text of an expression through accessors only (independent of the serializer)
std::wstring dump(const Index& i) { if (!i.nonnull()) return L"-"; std::wstring s(i.label()); s += L"@" + std::to_wstring(i.space().type().to_int32()) + L"." + std::to_wstring(i.space().qns().to_int32()); if (i.has_proto_indices()) { s += L"<"; for (auto& p : i.proto_indices()) s += dump(p) + L","; s += L">"; } return s; }
std::wstring num(const Sc& c) { return to_wstring(c.real()) + L"+I" + to_wstring(c.imag()); }
std::wstring dump(const ExprPtr& e) {
  if (!e) return L"null";
  if (e->is<Constant>()) return L"c" + num(e->as<Constant>().value());
  if (e->is<Variable>()) return L"v" + std::wstring(e->as<Variable>().label()) + (e->as<Variable>().conjugated() ? L"*" : L"");
  if (e->is<Power>()) { auto& p = e->as<Power>(); return L"pow(" + dump(p.base()) + L"," + to_wstring(p.exponent()) + (p.conjugated() ? L"*)" : L")"); }
  if (e->is<Tensor>()) {
    auto& t = e->as<Tensor>(); std::wstring s = L"T" + std::wstring(t.label()) + L"[";
    for (auto& i : t.bra()) s += dump(i) + L" "; s += L";"; for (auto& i : t.ket()) s += dump(i) + L" "; s += L";"; for (auto& i : t.aux()) s += dump(i) + L" ";
    return s + L"]" + std::to_wstring((int)t.symmetry()) + std::to_wstring((int)t.braket_symmetry()) + std::to_wstring((int)t.column_symmetry());
  }
  auto op = [](auto& o) { std::wstring s = L"op" + std::to_wstring((int)o.vacuum()) + L"["; for (auto& x : o) s += (x.action() == Action::Create ? L"+" : L"-") + dump(x.index()) + L" "; return s + L"]"; };
  if (e->is<FNOperator>()) return L"F" + op(e->as<FNOperator>());
  if (e->is<BNOperator>()) return L"B" + op(e->as<BNOperator>());
  std::wstring s;
  if (e->is<Product>()) { s = L"prod(" + num(e->as<Product>().scalar()); for (auto& f : e->as<Product>().factors()) s += L"," + dump(f); return s + L")"; }
  if (e->is<Sum>()) { s = L"sum("; for (auto& f : e->as<Sum>().summands()) s += dump(f) + L","; return s + L")"; }
  throw std::logic_error("dump");
}

struct Maker {
  Rng& r; bool ops = true, big = true;
  std::vector<std::wstring> spaces{L"i", L"a", L"p", L"a↑", L"i↓"};
  Index idx(bool proto = true) {
    auto sp = r.pick(spaces);
    std::wstring lab = sp + L"_" + std::to_wstring(r.chance(1, 12) ? r.range(7, 99) : r.range(1, 6));
    if (proto && r.chance(1, 8)) { container::vector<Index> ps; int k = r.range(1, 3); for (int q = 0; q < k; ++q) { Index p(std::wstring(L"i_") + std::to_wstring(r.range(1, 5))); if (std::find(ps.begin(), ps.end(), p) == ps.end()) ps.push_back(p); } return Index(lab, ps); }
    return Index(lab);
  }
  std::vector<Index> some(int k, std::vector<Index>& used) { std::vector<Index> v; while ((int)v.size() < k) { auto i = idx(); bool dup = false; for (auto& j : used) dup |= j == i || j.label() == i.label(); if (!dup) { v.push_back(i); used.push_back(i); } } return v; }
  std::wstring name() {
    static const std::vector<std::wstring> n{L"x", L"t", L"F", L"ω", L"γ", L"R1", L"x_y", L"t²", L"t̂", L"D⁔e", L"E", L"e", L"e2", L"E1", L"info", L"nan", L"Inf", L"nano", L"i", L"abc_12_d", L"T₁", L"Λ→x", L"x⁺", L"Q̃", L"A_b"};
    return r.pick(n);
  }
  rational rat() {
    if (big && r.chance(1, 10)) { sequant::intmax_t n(r.next() | 1), d(r.next() | 1); n *= (r.next() >> r(60)) | 1; return rational(r.chance(1, 2) ? n : sequant::intmax_t(-n), d); }
    if (r.chance(1, 10)) return rational((long long)((r.next() >> (1 + r(62))) | 1) * (r.chance(1, 2) ? 1 : -1));
    int n = r.range(-9, 9); if (!n) n = 1; return rational(n, r.range(1, 9));
  }
  ExprPtr tensor() {
    std::vector<Index> used; int n = r.range(0, 3), m = r.chance(1, 2) ? n : r.range(0, 3), x = r.chance(1, 4) ? r.range(1, 2) : 0;
    auto b = some(n, used); auto k = some(m, used); auto a = some(x, used);
    auto s = r.pick(std::vector<Symmetry>{Symmetry::Nonsymm, Symmetry::Symm, Symmetry::Antisymm});
    auto bk = n == m ? r.pick(std::vector<BraKetSymmetry>{BraKetSymmetry::Nonsymm, BraKetSymmetry::Conjugate, BraKetSymmetry::Symm}) : BraKetSymmetry::Nonsymm;
    auto cs = s == Symmetry::Nonsymm && r.chance(1, 2) ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
    return ex<Tensor>(name(), bra(b), ket(k), aux(a), s, bk, cs);
  }
  ExprPtr op() {
    std::vector<Index> used; int n = r.range(0, 3), m = r.range(n ? 0 : 1, 3); auto vac = r.chance(1, 2) ? Vacuum::Physical : Vacuum::SingleProduct;
    auto c = some(n, used), a = some(m, used);
    if (r.chance(3, 4)) return ex<FNOperator>(cre(c), ann(a), vac);
    return ex<BNOperator>(cre(c), ann(a), vac);
  }
  ExprPtr var() { auto v = ex<Variable>(name()); if (r.chance(1, 4)) v->as<Variable>().conjugate(); return v; }
  ExprPtr power() {
    ExprPtr b = r.chance(1, 2) ? var() : ex<Constant>(rat());
    auto e = rational(r.range(-5, 5), r.range(1, 4)); if (b->is<Constant>()) { if (e == 0) e = 2; }
    auto p = ex<Power>(b, e); if (r.chance(1, 5) && !b->is<Constant>()) p->as<Power>().conjugate(); return p;
  }
  ExprPtr atom() { int k = r(ops ? 10 : 8); if (k < 4) return tensor(); if (k < 6) return var(); if (k < 8) return power(); return op(); }
  // flat product as the library's own operations make it: scalar x atoms, never a trivial wrapper
  ExprPtr product(int depth = 0) {
    int n = r.range(1, 4); Sc c(r.chance(1, 2) ? rat() : rational(1));
    if (n == 1 && c == Sc(1)) n = 2;
    std::vector<ExprPtr> f; for (int q = 0; q < n; ++q) f.push_back(depth > 0 && r.chance(1, 3) ? nested(depth - 1) : atom());
    auto p = std::make_shared<Product>(); p->scale(c); for (auto& x : f) p->append(1, x, Product::Flatten::No); return p;
  }
  ExprPtr nested(int depth) { return r.chance(1, 2) ? sum(depth) : product(depth); }
  ExprPtr sum(int depth = 0) {
    int n = r.range(2, 5); auto s = std::make_shared<Sum>(); bool cst = false;
    for (int q = 0; q < n; ++q) { int k = r(8); ExprPtr t; if (k == 0 && !cst) { t = ex<Constant>(rat()); cst = true; } else if (k < 3) t = atom(); else if (depth > 0 && k == 3) t = sum(depth - 1); else t = product(depth); s->append(t); }
    return s->size() > 1 ? ExprPtr(s) : s->summand(0);
  }
  ExprPtr flat() { switch (r(6)) { case 0: return atom(); case 1: return ex<Constant>(rat()); case 2: return product(); default: return sum(); } }
};

std::string where(const std::wstring& text, const ExprPtr& e) { return "\n  text " + N(text) + "\n  expression " + N(dump(e)); }

// a text must be either deserialized or rejected with a library exception that points into the text
ExprPtr robust(Reporter& rep, const std::wstring& text, const ser::DeserializationOptions& o = {}) {
  try { auto e = deserialize<ExprPtr>(text, o); rep.count("accepted"); return e; }
  catch (ser::SerializationError& x) {
    rep.count("rejected"); rep.distinct("distinct_errors", hstr(std::string(x.what()).substr(0, 90)));
    if (x.offset > text.size() || x.length > text.size() - x.offset + 1) rep.violation("error-position", "offset " + std::to_string(x.offset) + " length " + std::to_string(x.length) + " outside of input of size " + std::to_string(text.size()) + ": " + x.what() + "\n  text " + N(text));
  } catch (sequant::Exception&) { rep.count("rejected_by_precondition"); }
  catch (std::exception& x) { rep.violation("foreign-exception", std::string(typeid(x).name()) + ": " + x.what() + "\n  text " + N(text)); }
  return nullptr;
}
std::wstring respace(Rng& r, const std::wstring& t) {   // extra blanks where tokens end
  std::wstring o; int brace = 0; bool ang = false;
  for (size_t k = 0; k < t.size(); ++k) {
    wchar_t c = t[k]; bool tok = c == L'*' || c == L'+' || c == L'(' || c == L')' || (brace && (c == L',' || c == L';'));
    if (c == L'^' || (k && t[k - 1] == L'^')) tok = false;                      // ^* and ^( stay attached
    if (c == L')' && k + 1 < t.size() && t[k + 1] == L'^') tok = false;
    if (tok && r.chance(1, 2)) o += L' ';
    o += c;
    if (c == L'{') { ++brace; if (r.chance(1, 2)) o += L' '; } if (c == L'}') --brace; if (c == L'<') ang = true; if (c == L'>') ang = false; (void)ang;
    if (tok && r.chance(1, 2)) o += r.chance(1, 3) ? L'\n' : L' ';
  }
  return o;
}
std::wstring mutate(Rng& r, std::wstring t) {
  static const std::wstring alphabet = L"{};,<>()^*+-/=_:. 0159aipxtASNCHe\n↑⁺²̃\u0302ωκ→\u00e9\U0001F600\u0001\"\\";
  static const std::vector<std::wstring> chunks{L"^*", L"^(2)", L"^(1/0)", L"1/0", L"{}", L"{;}", L"{;;}", L"{;;;}", L"_{", L"}^{", L"i_1", L"i_1<i_2>", L":A-S-S", L":A", L":H", L"--", L"i_99999999999999999999", L"1e999", L"1e-999", L"1e308", L"0^(-1)", L"->", L"= ", L"a{i_1;a_1}", L"ã", L"b̃{a_1}", L"nan", L"()", L"x^*^*", L"t{i_1,i_1}", L"0x", L"123456789012345678901234567890/7", L"/0", L"99999999999999999999^(99999999999999999999)", L"q_1", L"i↑_1"};
  int n = r.range(1, 4);
  for (int q = 0; q < n; ++q) {
    size_t at = t.empty() ? 0 : r((int)t.size());
    switch (r(6)) {
      case 0: if (!t.empty()) t.erase(at, r.range(1, 4)); break;
      case 1: t.insert(at, 1, alphabet[r((int)alphabet.size())]); break;
      case 2: if (!t.empty()) t[at] = alphabet[r((int)alphabet.size())]; break;
      case 3: t.insert(at, r.pick(chunks)); break;
      case 4: if (!t.empty()) { auto s = t.substr(at, r.range(1, 8)); t.insert(r((int)t.size()), s); } break;
      case 5: if (!t.empty() && r.chance(1, 3)) t.resize(at); break;
    }
  }
  if (t.size() > 600) t.resize(600);
  return t;
}
}  // namespace

int main(int argc, char** argv) {
  setup_min_sr();
  Suite s("C05");
  auto roundtrip = [](Reporter& rep, Rng& r, const ExprPtr& e, bool exact) {
    auto want = dump(e); std::wstring text;
    try { text = serialize(e); } catch (std::exception& x) { rep.violation("serialize-throws", std::string(x.what()) + where(L"", e)); return; }
    rep.count("round_trips"); rep.distinct("nontrivial", hstr(N(text)));
    if (dump(e) != want) rep.violation("serialize-modifies", where(text, e));
    ExprPtr f;
    try { f = deserialize<ExprPtr>(text); } catch (std::exception& x) { rep.violation("own-output-rejected", std::string(x.what()) + where(text, e)); return; }
    std::wstring again = f ? serialize(f) : L"";
    if (again != text) rep.violation("text-not-stable", "re-serialized as " + N(again) + where(text, e));
    if (exact) {
      rep.count("exact_round_trips");
      if (dump(f) != want) rep.violation("round-trip", "read back as " + N(dump(f)) + where(text, e));
      else if (!(*f == *e) || f->hash_value() != e->hash_value()) rep.violation("round-trip-equality", "the copy does not compare equal" + where(text, e));
    }
    // narrow text, and text with extra blanks, mean the same
    try { auto g = deserialize<ExprPtr>(std::string_view(N(text))); if (dump(g) != dump(f)) rep.violation("narrow", "UTF-8 text read as " + N(dump(g)) + where(text, e)); }
    catch (std::exception& x) { rep.violation("narrow-rejected", std::string(x.what()) + where(text, e)); }
    auto sp = respace(r, text);
    try { auto g = deserialize<ExprPtr>(sp); rep.count("respaced"); if (dump(g) != dump(f)) rep.violation("blanks", "with blanks (" + N(sp) + ") read as " + N(dump(g)) + where(text, e)); }
    catch (std::exception& x) { rep.violation("blanks-rejected", N(sp) + ": " + x.what() + where(text, e)); }
  };
  s.add("flat", 6000, 200000, [&](Rng& r, long, Reporter& rep) { Maker m{r}; roundtrip(rep, r, m.flat(), true); });
  s.add("nested-structure", 3000, 60000, [&](Rng& r, long, Reporter& rep) {
    Maker m{r}; auto e = m.nested(2);
    if (dump(e).find(L"c0+I0") != std::wstring::npos) throw Discard{};   // zero terms are dropped on reading
    roundtrip(rep, r, e, false);
  });
  // a nested expression keeps its value
  s.add("nested-value", 2500, 60000, [&](Rng& r, long, Reporter& rep) {
    GenParams gp; gp.spaces = {L"i", L"a"}; gp.max_tensors = 3; gp.max_dummies = 3; gp.max_rank = 2; gp.powers = true; gp.complex_scalars = false; gp.proto = r.chance(1, 4);
    Gen g(r, gp); Names n; auto ext = g.externals(n, r.range(0, 2), r.range(0, 1)); auto e = g.nested(ext, n, r.range(1, 3));
    auto has_zero = [](auto& self, const ExprPtr& x) -> bool { if (x->is<Sum>()) { for (auto& y : x->as<Sum>().summands()) if (self(self, y)) return true; return x->as<Sum>().empty(); } if (x->is<Product>()) { for (auto& y : x->as<Product>().factors()) if (self(self, y)) return true; return x->as<Product>().scalar() == 0; } return x->is_zero(); };
    if (has_zero(has_zero, e)) throw Discard{};
    Model m(r.next(), ModelParams{}); Evaluator ev(m); Arr a;
    try { a = ev.eval(e, ext.all()); } catch (EvalError&) { throw Discard{}; }
    auto text = serialize(e); ExprPtr f;
    try { f = deserialize<ExprPtr>(text); } catch (std::exception& x) { rep.violation("own-output-rejected", std::string(x.what()) + where(text, e)); return; }
    rep.count("values_compared"); rep.distinct("nontrivial", hstr(N(text)));
    try { if (first_difference(a, ev.eval(f, ext.all())) >= 0) rep.violation("value", "value changed, read back as " + N(dump(f)) + where(text, e)); }
    catch (EvalError& x) { rep.violation("value-malformed", std::string(x.what()) + where(text, e)); }
  });
  // omitted annotations take the defaults asked for; bra/ket spelled in the other styles
  s.add("defaults", 2500, 40000, [&](Rng& r, long, Reporter& rep) {
    Maker m{r}; m.ops = false; auto e = m.tensor(); auto& t = e->as<Tensor>();
    ser::SerializationOptions so{.annot_symm = false}; auto text = serialize(e, so);
    auto s0 = r.pick(std::vector<Symmetry>{Symmetry::Nonsymm, Symmetry::Symm, Symmetry::Antisymm}); auto b0 = r.pick(std::vector<BraKetSymmetry>{BraKetSymmetry::Nonsymm, BraKetSymmetry::Conjugate, BraKetSymmetry::Symm}); auto c0 = r.pick(std::vector<ColumnSymmetry>{ColumnSymmetry::Nonsymm, ColumnSymmetry::Symm});
    ser::DeserializationOptions o{.def_perm_symm = s0, .def_braket_symm = b0, .def_col_symm = c0};
    auto rename = [&](std::wstring x) { return x; }; (void)rename;
    auto want = ex<Tensor>(t.label(), bra(t.bra().value()), ket(t.ket().value()), aux(t.aux().value()), s0, b0, s0 != Symmetry::Nonsymm ? ColumnSymmetry::Symm : c0);
    rep.count("defaults"); rep.distinct("nontrivial", hstr(N(text) + std::to_string((int)s0 * 9 + (int)b0 * 3 + (int)c0)));
    auto f = robust(rep, text, o);
    if (dump(f) != dump(want)) rep.violation("defaults", "expected " + N(dump(want)) + " read " + N(dump(f)) + "\n  text " + N(text));
    // explicit annotations win over the defaults
    auto g = robust(rep, serialize(e), o);
    if (dump(g) != dump(e)) rep.violation("annotation-vs-default", "read " + N(dump(g)) + where(serialize(e), e));
    // partial annotation
    auto L1 = [](Symmetry q) { return q == Symmetry::Symm ? L"S" : q == Symmetry::Antisymm ? L"A" : L"N"; };
    if (t.symmetry() != Symmetry::Nonsymm && s0 != Symmetry::Nonsymm) {
      auto h = robust(rep, text + L":" + L1(t.symmetry()), o);
      auto w2 = ex<Tensor>(t.label(), bra(t.bra().value()), ket(t.ket().value()), aux(t.aux().value()), t.symmetry(), b0, ColumnSymmetry::Symm);
      if (dump(h) != dump(w2)) rep.violation("partial-annotation", "read " + N(dump(h)) + ", expected " + N(dump(w2)) + "\n  text " + N(text));
    }
    if (t.aux().size() == 0) {
      auto lst = [&](auto&& is) { std::wstring q; for (auto& i : is) q += (q.empty() ? L"" : L",") + ser::to_string(i); return q; };
      auto b = lst(t.bra()), k = lst(t.ket()); std::wstring nm(t.label());
      auto f1 = robust(rep, nm + L"_{" + b + L"}^{" + k + L"}", o), f2 = robust(rep, nm + L"^{" + k + L"}_{" + b + L"}", o);
      rep.count("latex_forms");
      if (dump(f1) != dump(want) || dump(f2) != dump(want)) rep.violation("latex-form", "read " + N(dump(f1)) + " and " + N(dump(f2)) + ", expected " + N(dump(want)));
    }
  });
  s.add("result", 2500, 30000, [&](Rng& r, long, Reporter& rep) {
    Maker m{r}; auto rhs = m.flat();
    ExprPtr lhs = r.chance(1, 3) ? m.var() : m.tensor();
    if (lhs->is<Variable>() && lhs->as<Variable>().conjugated()) lhs->as<Variable>().conjugate();
    if (lhs->is<Tensor>() && lhs->as<Tensor>().bra_rank() + lhs->as<Tensor>().ket_rank() + lhs->as<Tensor>().aux_rank() == 0) throw Discard{};   // becomes a scalar result
    ResultExpr re = lhs->is<Tensor>() ? ResultExpr(lhs->as<Tensor>(), rhs) : ResultExpr(lhs->as<Variable>(), rhs);
    auto text = serialize(re); rep.count("results"); rep.distinct("nontrivial", hstr(N(text)));
    auto check = [&](const std::wstring& in) {
      try {
        auto b = deserialize<ResultExpr>(in);
        ExprPtr l2 = b.produces_tensor() ? ex<Tensor>(b.result_as_tensor(L"?")) : ex<Variable>(b.result_as_variable(L"?"));
        if (dump(l2) != dump(lhs)) rep.violation("result-lhs", "read " + N(dump(l2)) + where(in, lhs));
        if (dump(b.expression()) != dump(rhs)) rep.violation("result-rhs", "read " + N(dump(b.expression())) + where(in, rhs));
        if (serialize(b) != text) rep.violation("result-text", N(serialize(b)) + where(in, rhs));
      } catch (std::exception& x) { rep.violation("result-rejected", std::string(x.what()) + where(in, rhs)); }
    };
    check(text);
    auto at = text.find(L" = "); auto t2 = text; t2.replace(at, 3, L" -> "); check(t2);
    // malformed results
    auto bad = mutate(r, text);
    try { deserialize<ResultExpr>(bad); rep.count("accepted"); } catch (ser::SerializationError& x) { rep.count("rejected"); if (x.offset > bad.size()) rep.violation("error-position", x.what()); } catch (sequant::Exception&) { rep.count("rejected_by_precondition"); } catch (std::exception& x) { rep.violation("foreign-exception", std::string(typeid(x).name()) + ": " + x.what() + "\n  text " + N(bad)); }
  });
  // number literals
  s.add("numbers", 3000, 60000, [&](Rng& r, long, Reporter& rep) {
    auto digits = [&](int n) { std::string d; for (int k = 0; k < n; ++k) d += char('0' + r(10)); return d; };
    auto dec = [&](std::string& t) -> rational {   // decimal literal and its exact double value
      std::string ip = digits(r.range(1, 6)), fp = digits(r.range(1, 6)); t = ip + "." + fp; if (r.chance(1, 3)) t += (r.chance(1, 2) ? "e" : "E") + std::string(r.chance(1, 2) ? "-" : "") + std::to_string(r.range(0, 9)); return rational(std::strtod(t.c_str(), nullptr)); };
    auto whole = [&](std::string& t) -> rational { t = digits(r.range(1, 30)); auto k = t.find_first_not_of('0'); return k == std::string::npos ? rational(0) : rational(sequant::intmax_t(t.substr(k))); };
    std::string a, b; bool da = r.chance(1, 3), frac = r.chance(1, 2), db = frac && r.chance(1, 4); rational v = da ? dec(a) : whole(a), w = 1;
    if (frac) w = db ? dec(b) : whole(b);
    std::string t = a + (frac ? (r.chance(1, 2) ? "/" : " / ") + b : ""); bool neg = r.chance(1, 4); if (neg) t = "-" + t;
    rep.count("numbers"); rep.distinct("nontrivial", hstr(t));
    try {
      auto e = deserialize<ExprPtr>(std::string_view(t));
      if (w == 0) { rep.violation("division-by-zero-accepted", t); return; }
      rational want = v / w; if (neg) want = -want;
      if (!e->is<Constant>()) { rep.violation("number-kind", t + " read as " + N(dump(e))); return; }
      rational got = e->as<Constant>().value().real();
      bool same = !da && !db ? got == want : abs(got - want) <= abs(want) * rational(1, 1000000000000LL);  // decimals go through binary floating point
      if (!same || e->as<Constant>().value().imag() != 0) rep.violation("number-value", t + " read as " + N(dump(e)));
    } catch (ser::SerializationError&) { if (w != 0) rep.violation("number-rejected", t); else rep.count("zero_denominators"); }
    catch (std::exception& x) { rep.violation("foreign-exception", std::string(typeid(x).name()) + ": " + x.what() + "\n  text " + t); }
  });
  s.add("malformed", 12000, 400000, [&](Rng& r, long, Reporter& rep) {
    Maker m{r}; auto text = serialize(r.chance(1, 2) ? m.nested(1) : m.flat()); if (text.size() > 160 && r.chance(3, 4)) { auto at = r((int)text.size() - 80); text = text.substr(at, 80); }
    auto bad = mutate(r, text); rep.count("malformed"); rep.distinct("nontrivial", hstr(N(bad)));
    auto e = robust(rep, bad);
    if (!e) return;
    // whatever was accepted can be written and read again with the same meaning
    auto again = serialize(e);
    { size_t run = 0; for (auto c : again) { run = c >= L'0' && c <= L'9' ? run + 1 : 0; if (run > 300) { rep.count("astronomic_numbers"); return; } } }   // read through double
    auto f = robust(rep, again);
    if (!f && !again.empty()) { rep.violation("accepted-not-rereadable", "text " + N(bad) + " -> " + N(again)); return; }
    auto b = serialize(f), c = serialize(robust(rep, b));   // the first copy may drop zero terms
    if (c != b) rep.violation("accepted-unstable", "text " + N(bad) + " -> " + N(again) + " -> " + N(b) + " -> " + N(c));
  });
  // complex coefficients (fixed inputs; see known_findings.json)
  s.fixed("complex", 3, [&](Rng&, long k, Reporter& rep) {
    auto x = ex<Variable>(L"x");
    ExprPtr e = k == 0 ? ex<Constant>(Sc(0, 3)) : k == 1 ? ex<Constant>(Sc(1, 3)) : ex<Constant>(Sc(0, 3)) * x;
    auto text = serialize(e); rep.count("complex");
    try { auto f = deserialize<ExprPtr>(text); if (dump(f) != dump(e)) rep.violation(std::string("complex-coefficient:") + (k == 0 ? "3i" : k == 1 ? "1+3i" : "3i*x"), "read back as " + N(dump(f)) + where(text, e)); }
    catch (std::exception& y) { rep.violation(std::string("complex-coefficient:") + (k == 0 ? "3i" : k == 1 ? "1+3i" : "3i*x"), std::string(y.what()) + where(text, e)); }
  });
  return s.main(argc, argv);
}
