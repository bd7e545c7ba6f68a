#include "model.hpp"
#include "report.hpp"
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/io/latex/latex.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <algorithm>
#include <bit>
#include <unordered_map>

namespace vf {
using namespace sequant;

static Z big_to_Z(const boost::multiprecision::cpp_int& v) {
  using boost::multiprecision::cpp_int;
  cpp_int m = v % cpp_int(P);
  if (m < 0) m += cpp_int(P);
  return Z(m.convert_to<u64>(), 0);
}
Z to_Z(const rational& r) {
  boost::multiprecision::cpp_int n(numerator(r)), d(denominator(r));
  return big_to_Z(n) * big_to_Z(d).inv();
}
Z to_Z(const Constant::scalar_type& c) {
  Z re = to_Z(c.real()), im = to_Z(c.imag());
  return Z(re.re, im.re);
}

const std::vector<int>& Model::orbitals(const IndexSpace& s) {
  std::uint32_t type = (std::uint32_t)s.type().to_int32(), q = (std::uint32_t)s.qns().to_int32();
  auto key = std::make_pair(type, q);
  auto it = cache_.find(key);
  if (it != cache_.end()) return it->second;
  std::uint32_t spin = q & par_.spin_mask, cls = q & ~par_.spin_mask;
  std::vector<int> res;
  for (int b = 0; b < 31; ++b) {
    std::uint32_t t = 1u << b;
    if (!(type & t)) continue;
    if (!par_.types.empty() && !par_.types.count(t)) continue;
    auto& v = by_type_cls_[{t, cls}];
    if (v.empty()) {
      int n = par_.per_type_spin;
      if (auto p = par_.per_type.find(t); p != par_.per_type.end() ) n = p->second;
      else if (par_.max_extra) n += (int)(comb(seed_, comb(t, cls)) % (par_.max_extra + 1));
      for (int k = 0; k < n; ++k) {
        auto add = [&](std::uint32_t sp) {
          orbs_.push_back({t, sp, cls, k});
          v.push_back((int)orbs_.size() - 1);
          by_code_[orbs_.back().code()] = v.back();
        };
        if (par_.spins && !(par_.spinless_if_unmarked && spin == 0)) { add(1); add(2); }
        else add(3);
      }
    }
    for (int o : v) if (spin == 0 || (orbs_[o].spin & spin)) res.push_back(o);
  }
  return cache_[key] = res;
}

Z Model::raw(u64 lab, std::vector<u64> bra, std::vector<u64> ket, std::vector<u64> aux, Symmetry s,
             BraKetSymmetry bk, ColumnSymmetry cs) {
  // empty slots at the end of a bundle carry no information
  while (!bra.empty() && bra.back() == NULLSLOT) bra.pop_back();
  while (!ket.empty() && ket.back() == NULLSLOT) ket.pop_back();
  int sign = 1;
  auto sort_sign = [&](std::vector<u64>& v, bool anti) -> bool {
    for (std::size_t i = 1; i < v.size(); ++i)
      for (std::size_t j = i; j > 0 && v[j - 1] > v[j]; --j) { std::swap(v[j - 1], v[j]); if (anti) sign = -sign; }
    if (anti) for (std::size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) return false;
    return true;
  };
  if (s == Symmetry::Antisymm) {
    if (!sort_sign(bra, true) || !sort_sign(ket, true)) return Z(0);
  } else if (s == Symmetry::Symm) {
    sort_sign(bra, false); sort_sign(ket, false);
  }
  auto colsort = [&](std::vector<u64>& b, std::vector<u64>& k) {
    if (s != Symmetry::Nonsymm || cs != ColumnSymmetry::Symm) return;
    std::size_t n = std::max(b.size(), k.size());
    std::vector<std::pair<u64, u64>> c(n);
    for (std::size_t i = 0; i < n; ++i) c[i] = {i < b.size() ? b[i] : NULLSLOT, i < k.size() ? k[i] : NULLSLOT};
    std::sort(c.begin(), c.end());
    b.assign(n, 0); k.assign(n, 0);
    for (std::size_t i = 0; i < n; ++i) { b[i] = c[i].first; k[i] = c[i].second; }
  };

  std::vector<u64> b1 = bra, k1 = ket;
  colsort(b1, k1);
  bool conj = false, real = real_tensors;
  if (bk != BraKetSymmetry::Nonsymm) {
    std::vector<u64> b2 = ket, k2 = bra;
    colsort(b2, k2);
    auto o1 = std::tie(b1, k1), o2 = std::tie(b2, k2);
    if (bk == BraKetSymmetry::Conjugate && o1 == o2) real = true;
    if (o2 < o1) { std::swap(b1, b2); std::swap(k1, k2); conj = (bk == BraKetSymmetry::Conjugate); }
  }
  u64 h = comb(seed_, lab);
  h = comb(h, (u64)s * 3 + (u64)bk * 17 + (u64)cs * 101);
  h = comb(h, b1.size());
  for (u64 x : b1) h = comb(h, x);
  h = comb(h, 0xabc);
  for (u64 x : k1) h = comb(h, x);
  h = comb(h, aux.size() + 1000);
  for (u64 x : aux) h = comb(h, x);
  Z r(mix(h ^ 1) % P, real ? 0 : mix(h ^ 2) % P);
  if (conj) r = r.conj();
  return sign < 0 ? -r : r;
}

Z Model::tensor(const Tensor& t, std::vector<u64> bra, std::vector<u64> ket, std::vector<u64> aux) {
  Z out;
  if (hook && hook(t, bra, ket, aux, out)) return out;
  std::wstring lab(t.label());
  if (lab == reserved::kronecker_label() || lab == reserved::overlap_label())
    return Z(bra == ket ? 1 : 0);
  bool adj = false;
  while (!lab.empty() && lab.back() == sequant::adjoint_label) { adj = !adj; lab.pop_back(); }
  if (adj) {
    std::swap(bra, ket);
    return raw(hstr(lab), bra, ket, aux, t.symmetry(), t.braket_symmetry(), t.column_symmetry()).conj();
  }
  return raw(hstr(lab), bra, ket, aux, t.symmetry(), t.braket_symmetry(), t.column_symmetry());
}
Z Model::variable(std::wstring_view label) {
  // a 12-th power so that x^{p/q}, q|12, has a consistent value
  u64 h = comb(seed_ ^ 0x5555, hstr(label));
  Z w(mix(h) % P, mix(h ^ 7) % P);
  return w.pow(12);
}
static Z variable_root(u64 seed, std::wstring_view label) {
  u64 h = comb(seed ^ 0x5555, hstr(label));
  return Z(mix(h) % P, mix(h ^ 7) % P);
}

// ---------------------------------------------------------------------------
int Evaluator::symbol(const Index& i) {
  auto it = syms_.find(i);
  if (it != syms_.end()) return it->second;
  int s = (int)symidx_.size();
  symidx_.push_back(i);
  symorbs_.push_back(m_.orbitals(i.space()));
  syms_.emplace(i, s);
  return s;
}
int Evaluator::fresh(int like) {
  int s = (int)symidx_.size();
  symidx_.push_back(symidx_[like]);
  symorbs_.push_back(symorbs_[like]);
  return s;
}
FSlot Evaluator::fslot(const Index& i) {
  FSlot f;
  if (!i.nonnull()) return f;
  f.sym = symbol(i);
  for (const auto& p : i.proto_indices()) f.protos.push_back(symbol(p));
  return f;
}

static void for_slots(const FTerm& t, const std::function<void(const FSlot&)>& f) {
  for (auto& a : t.atoms) {
    for (auto& s : a.bra) f(s);
    for (auto& s : a.ket) f(s);
    for (auto& s : a.aux) f(s);
    for (auto& s : a.ops) f(s.first);
  }
}
static std::map<int, int> slot_counts(const FTerm& t) {
  std::map<int, int> c;
  for_slots(t, [&](const FSlot& s) { if (s.sym >= 0) c[s.sym]++; });
  return c;
}

template <Statistics S>
static FAtom op_atom(const NormalOperator<S>& n, const std::function<FSlot(const Index&)>& fs) {
  FAtom a;
  a.kind = S == Statistics::FermiDirac ? FAtom::FOp : FAtom::BOp;
  a.e = &n;
  a.vac = n.vacuum();
  for (auto it = n.cbegin(); it != n.cend(); ++it) a.ops.emplace_back(fs(it->index()), it->action() == Action::Create);
  a.ncre = (int)n.ncreators();
  return a;
}

std::vector<FTerm> Evaluator::flat(const Expr& e, const std::set<int>& ext) {
  if (e.is<Constant>()) { FTerm t; t.coef = to_Z(e.as<Constant>().value()); return {t}; }
  if (e.is<Variable>()) {
    const auto& v = e.as<Variable>();
    Z z = m_.variable(v.label());
    FTerm t; t.coef = v.conjugated() ? z.conj() : z; return {t};
  }
  if (e.is<Power>()) {
    const auto& p = e.as<Power>();
    Z b;
    auto num = boost::multiprecision::cpp_int(numerator(p.exponent())).convert_to<long>();
    auto den = boost::multiprecision::cpp_int(denominator(p.exponent())).convert_to<long>();
    Z val;
    if (p.base()->is<Variable>()) {
      if (12 % den) throw EvalError("power denominator");
      const auto& v = p.base()->as<Variable>();
      b = variable_root(m_.seed(), v.label());
      if (v.conjugated()) b = b.conj();
      val = b.pow(num * (12 / den));
    } else {
      auto c = p.base()->as<Constant>().value();
      if (den == 1) val = to_Z(c).pow(num);
      else if (den == 2 && c.imag() == 0 && c.real() >= 0) {
        boost::multiprecision::cpp_int n(numerator(c.real())), d(denominator(c.real()));
        // sqrt(2) is 2^31 in this field (2^62 = 2); other irrational roots are not represented
        Z two(1); auto halve = [](boost::multiprecision::cpp_int& x) { int k = 0; while (x > 1 && x % 2 == 0) { x /= 2; ++k; } return k; };
        int k = halve(n) - halve(d); Z r2(i64(1) << 31); two = r2.pow(k);
        auto sn = sqrt(n), sd = sqrt(d);
        if (sn * sn != n || sd * sd != d) throw EvalError("irrational power");
        val = (two * big_to_Z(sn) * big_to_Z(sd).inv()).pow(num);
      } else throw EvalError("power of constant");
    }
    FTerm t; t.coef = p.conjugated() ? val.conj() : val; return {t};
  }
  if (e.is<Tensor>()) {
    const auto& x = e.as<Tensor>();
    FAtom a; a.kind = FAtom::Tensor; a.e = &e;
    for (const auto& i : x.bra()) a.bra.push_back(fslot(i));
    for (const auto& i : x.ket()) a.ket.push_back(fslot(i));
    for (const auto& i : x.aux()) a.aux.push_back(fslot(i));
    FTerm t; t.atoms.push_back(std::move(a)); return {t};
  }
  auto fs = [this](const Index& i) { return fslot(i); };
  if (e.is<FNOperator>()) { FTerm t; t.atoms.push_back(op_atom(e.as<FNOperator>(), fs)); return {t}; }
  if (e.is<BNOperator>()) { FTerm t; t.atoms.push_back(op_atom(e.as<BNOperator>(), fs)); return {t}; }
  if (e.is<FNOperatorSeq>()) {
    FTerm t;
    for (const auto& n : static_cast<const FNOperatorSeq::base_type&>(e.as<FNOperatorSeq>())) t.atoms.push_back(op_atom(n, fs));
    return {t};
  }
  if (e.is<BNOperatorSeq>()) {
    FTerm t;
    for (const auto& n : static_cast<const BNOperatorSeq::base_type&>(e.as<BNOperatorSeq>())) t.atoms.push_back(op_atom(n, fs));
    return {t};
  }
  if (e.is<Sum>()) {
    std::vector<FTerm> r;
    for (const auto& s : e.as<Sum>().summands()) { auto v = flat(*s, ext); for (auto& t : v) r.push_back(std::move(t)); }
    return r;
  }
  if (e.is<Product>()) {
    const auto& p = e.as<Product>();
    Z sc = to_Z(p.scalar());
    std::vector<FTerm> cur(1);
    cur[0].coef = sc;
    // An index that is contracted (one bra and one ket slot) inside a term of a
    // nested factor is local to that term. Auxiliary indices can be shared by any
    // number of slots: they are local only if no other factor mentions them.
    std::vector<std::vector<FTerm>> fac;
    for (const auto& f : p.factors()) fac.push_back(flat(*f, ext));
    std::vector<std::set<int>> vis(fac.size());
    for (std::size_t k = 0; k < fac.size(); ++k)
      for (auto& t : fac[k]) for (auto& [s, c] : slot_counts(t)) vis[k].insert(s);
    for (std::size_t k = 0; k < fac.size(); ++k) {
      const auto& f = *p.factors()[k];
      if (f.is<Sum>() || f.is<Product>()) {
        std::set<int> others = ext;
        for (std::size_t j = 0; j < fac.size(); ++j) if (j != k) others.insert(vis[j].begin(), vis[j].end());
        for (auto& t : fac[k]) {
          std::map<int, int> ren;
          std::map<int, int> nb, na;
          for (auto& a : t.atoms) {
            for (auto& s : a.bra) nb[s.sym]++;
            for (auto& s : a.ket) nb[s.sym]++;
            for (auto& s : a.ops) nb[s.first.sym]++;
            for (auto& s : a.aux) na[s.sym]++;
          }
          for (auto& [s, c] : slot_counts(t))
            if (c >= 2 && s >= 0 && ((nb[s] == 2 && na[s] == 0) || !others.count(s))) ren[s] = fresh(s);
          if (ren.empty()) continue;
          auto fix = [&](FSlot& s) {
            if (auto it = ren.find(s.sym); it != ren.end()) s.sym = it->second;
            for (auto& q : s.protos) if (auto it = ren.find(q); it != ren.end()) q = it->second;
          };
          for (auto& a : t.atoms) {
            for (auto& s : a.bra) fix(s);
            for (auto& s : a.ket) fix(s);
            for (auto& s : a.aux) fix(s);
            for (auto& s : a.ops) fix(s.first);
          }
        }
      }
      std::vector<FTerm> nxt;
      for (auto& a : cur)
        for (auto& b : fac[k]) {
          FTerm t = a;
          t.coef *= b.coef;
          for (auto& x : b.atoms) t.atoms.push_back(x);
          if (!t.coef.zero()) nxt.push_back(std::move(t));
        }
      cur = std::move(nxt);
    }
    return cur;
  }
  throw EvalError("unsupported expression type");
}

std::vector<FTerm> Evaluator::flatten(const ExprPtr& e, const std::vector<Index>& ext) {
  std::set<int> x;
  for (auto& i : ext) { x.insert(symbol(i)); for (auto& p : i.proto_indices()) symbol(p); }
  if (!e) return {};
  return flat(*e, x);
}

std::vector<Index> Evaluator::free_indices(const ExprPtr& e) {
  auto ts = flatten(e, {});
  std::vector<Index> r;
  for (auto& t : ts) {
    if (t.coef.zero()) continue;
    auto c = slot_counts(t);
    std::set<int> all;
    for (auto& [s, n] : c) if (n == 1) all.insert(s);
    // pure protoindices are free too
    for_slots(t, [&](const FSlot& s) { for (int q : s.protos) if (!c.count(q)) all.insert(q); });
    for (int s : all) r.push_back(symidx_[s]);
    return sorted(r);
  }
  return r;
}
bool Evaluator::has_ops(const ExprPtr& e) {
  for (auto& t : flatten(e, {})) for (auto& a : t.atoms) if (a.kind != FAtom::Tensor) return true;
  return false;
}

// ---------------------------------------------------------------------------
static std::size_t arr_size(const std::vector<int>& d) { std::size_t n = 1; for (int x : d) n *= (std::size_t)x; return n; }

Arr Evaluator::tensor_arr(const FAtom& a) {
  Arr r;
  std::set<int> ss;
  auto add = [&](const FSlot& s) { if (s.sym >= 0) ss.insert(s.sym); for (int q : s.protos) ss.insert(q); };
  for (auto& s : a.bra) add(s);
  for (auto& s : a.ket) add(s);
  for (auto& s : a.aux) add(s);
  r.syms.assign(ss.begin(), ss.end());
  for (int s : r.syms) r.dims.push_back((int)orbs(s).size());
  std::size_t n = arr_size(r.dims);
  if (n > 40000000) throw EvalError("tensor too large");
  r.data.resize(n);
  std::unordered_map<int, int> pos;
  for (std::size_t k = 0; k < r.syms.size(); ++k) pos[r.syms[k]] = (int)k;
  std::vector<int> at(r.syms.size(), 0);
  const Tensor& t = a.e->as<Tensor>();
  std::vector<u64> b(a.bra.size()), k(a.ket.size()), x(a.aux.size());
  auto val = [&](const FSlot& s) -> u64 {
    if (s.sym < 0) return Model::NULLSLOT;
    int o = orbs(s.sym)[at[pos[s.sym]]];
    if (s.protos.empty()) return m_.slot(o);
    // proto indices are symmetric
    std::vector<u64> ps;
    for (int q : s.protos) ps.push_back(m_.slot(orbs(q)[at[pos[q]]]));
    std::sort(ps.begin(), ps.end());
    u64 h = comb(777, m_.slot(o));
    for (u64 q : ps) h = comb(h, q);
    return h | (u64(1) << 62);
  };
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < b.size(); ++j) b[j] = val(a.bra[j]);
    for (std::size_t j = 0; j < k.size(); ++j) k[j] = val(a.ket[j]);
    for (std::size_t j = 0; j < x.size(); ++j) x[j] = val(a.aux[j]);
    r.data[i] = m_.tensor(t, b, k, x);
    for (int d = (int)at.size() - 1; d >= 0; --d) { if (++at[d] < r.dims[d]) break; at[d] = 0; }
  }
  return r;
}

// C[out] = sum A*B ; out = (syms(A) u syms(B)) \ drop
static Arr mult(const Arr& A, const Arr& B, const std::set<int>& drop, u64& work) {
  std::map<int, int> dim;
  for (std::size_t i = 0; i < A.syms.size(); ++i) dim[A.syms[i]] = A.dims[i];
  for (std::size_t i = 0; i < B.syms.size(); ++i) dim[B.syms[i]] = B.dims[i];
  std::vector<int> all, out;
  for (auto& [s, d] : dim) if (!drop.count(s)) out.push_back(s);
  all = out;
  for (auto& [s, d] : dim) if (drop.count(s)) all.push_back(s);
  Arr C; C.syms = out;
  for (int s : out) C.dims.push_back(dim[s]);
  std::size_t nout = arr_size(C.dims);
  if (nout > 40000000) throw EvalError("intermediate too large");
  C.data.assign(nout, Z(0));
  std::vector<int> dims; for (int s : all) dims.push_back(dim[s]);
  std::size_t n = arr_size(dims);
  if (n == 0) return C;
  if (n > 400000000ull) throw EvalError("contraction too large");
  auto strides = [&](const Arr& X) {
    std::map<int, std::size_t> st; std::size_t s = 1;
    for (int i = (int)X.syms.size() - 1; i >= 0; --i) { st[X.syms[i]] = s; s *= X.dims[i]; }
    std::vector<std::size_t> v; for (int sy : all) v.push_back(st.count(sy) ? st[sy] : 0);
    return v;
  };
  auto sa = strides(A), sb = strides(B), sc = strides(C);
  std::vector<int> at(all.size(), 0);
  std::size_t ia = 0, ib = 0, ic = 0;
  for (std::size_t i = 0; i < n; ++i) {
    const Z& a = A.data[ia];
    if (!a.zero()) C.data[ic] += a * B.data[ib];
    for (int d = (int)at.size() - 1; d >= 0; --d) {
      ia += sa[d]; ib += sb[d]; ic += sc[d];
      if (++at[d] < dims[d]) break;
      at[d] = 0; ia -= sa[d] * dims[d]; ib -= sb[d] * dims[d]; ic -= sc[d] * dims[d];
    }
  }
  work += n;
  return C;
}

Arr Evaluator::contract(const FTerm& t, const std::set<int>& keep) {
  std::vector<Arr> fs;
  Arr one; one.data.push_back(t.coef);
  for (auto& a : t.atoms) if (a.kind == FAtom::Tensor) fs.push_back(tensor_arr(a));
  // traces inside one tensor are handled by mult with `one`
  auto needed = [&](int s, std::size_t i, std::size_t j) {
    if (keep.count(s)) return true;
    for (std::size_t k = 0; k < fs.size(); ++k) {
      if (k == i || k == j) continue;
      if (std::find(fs[k].syms.begin(), fs[k].syms.end(), s) != fs[k].syms.end()) return true;
    }
    return false;
  };
  auto drops = [&](std::size_t i, std::size_t j) {
    std::set<int> d;
    for (int s : fs[i].syms) if (!needed(s, i, j)) d.insert(s);
    if (j != i) for (int s : fs[j].syms) if (!needed(s, i, j)) d.insert(s);
    return d;
  };
  // sum out symbols private to one tensor
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto d = drops(i, i);
    if (!d.empty()) { Arr o; o.data.push_back(Z(1)); fs[i] = mult(fs[i], o, d, work); }
  }
  while (fs.size() > 1) {
    double best = 1e300; std::size_t bi = 0, bj = 1;
    for (std::size_t i = 0; i < fs.size(); ++i)
      for (std::size_t j = i + 1; j < fs.size(); ++j) {
        std::map<int, int> dim;
        for (std::size_t k = 0; k < fs[i].syms.size(); ++k) dim[fs[i].syms[k]] = fs[i].dims[k];
        for (std::size_t k = 0; k < fs[j].syms.size(); ++k) dim[fs[j].syms[k]] = fs[j].dims[k];
        double c = 1; for (auto& [s, d] : dim) c *= d;
        if (c < best) { best = c; bi = i; bj = j; }
      }
    Arr r = mult(fs[bi], fs[bj], drops(bi, bj), work);
    fs.erase(fs.begin() + bj); fs.erase(fs.begin() + bi);
    fs.push_back(std::move(r));
  }
  if (fs.empty()) return one;
  return mult(fs[0], one, {}, work);
}

static void check_protos(const FTerm&) {}

Arr Evaluator::eval(const ExprPtr& e, const std::vector<Index>& ext) {
  auto ts = flatten(e, ext);
  Arr R;
  std::set<int> keep;
  for (auto& i : ext) { int s = syms_.at(i); R.syms.push_back(s); R.dims.push_back((int)orbs(s).size()); keep.insert(s); }
  std::size_t n = arr_size(R.dims);
  R.data.assign(n, Z(0));
  for (auto& t : ts) {
    if (t.coef.zero()) continue;
    for (auto& a : t.atoms) if (a.kind != FAtom::Tensor) throw EvalError("operator in c-number evaluation");
    auto cnt = slot_counts(t);
    for (auto& [s, c] : cnt) if (c == 1 && !keep.count(s)) throw EvalError("free index " + narrow(symidx_[s].full_label()) + " is not external");
    for_slots(t, [&](const FSlot& f) { for (int q : f.protos) if (!keep.count(q) && !cnt.count(q)) throw EvalError("free proto index " + narrow(symidx_[q].full_label())); });
    check_protos(t);
    Arr c = contract(t, keep);
    // broadcast/accumulate c into R
    std::map<int, std::size_t> st; std::size_t s = 1;
    for (int i = (int)c.syms.size() - 1; i >= 0; --i) { st[c.syms[i]] = s; s *= c.dims[i]; }
    std::vector<int> at(R.syms.size(), 0);
    std::vector<std::size_t> cs; for (int y : R.syms) cs.push_back(st.count(y) ? st[y] : 0);
    std::size_t ic = 0;
    for (std::size_t i = 0; i < n; ++i) {
      R.data[i] += c.data[ic];
      for (int d = (int)at.size() - 1; d >= 0; --d) {
        ic += cs[d];
        if (++at[d] < R.dims[d]) break;
        at[d] = 0; ic -= cs[d] * R.dims[d];
      }
    }
  }
  return R;
}

long first_difference(const Arr& a, const Arr& b) {
  if (a.data.size() != b.data.size()) return 0;
  for (std::size_t i = 0; i < a.data.size(); ++i) if (a.data[i] != b.data[i]) return (long)i;
  return -1;
}

// ---------------------------------------------------------------------------
namespace {
struct FOpI { int mode; bool cre; bool occ; };
// returns sign (0 if annihilated) and new determinant; ops applied right to left
int apply_string(const std::vector<FOpI>& ops, u64& det) {
  int sign = 1;
  for (int i = (int)ops.size() - 1; i >= 0; --i) {
    u64 bit = u64(1) << ops[i].mode;
    int par = std::popcount(det & (bit - 1)) & 1;
    if (ops[i].cre) { if (det & bit) return 0; det |= bit; }
    else { if (!(det & bit)) return 0; det &= ~bit; }
    if (par) sign = -sign;
  }
  return sign;
}
// normal order w.r.t. the Fermi vacuum: quasi-creators left; returns sign
int normal_order(std::vector<FOpI>& ops) {
  int sign = 1;
  auto qc = [](const FOpI& o) { return o.cre != o.occ; };
  for (std::size_t i = 1; i < ops.size(); ++i)
    for (std::size_t j = i; j > 0 && qc(ops[j]) && !qc(ops[j - 1]); --j) { std::swap(ops[j], ops[j - 1]); sign = -sign; }
  return sign;
}
}  // namespace

std::map<std::tuple<u64, u64, u64>, Z> Evaluator::eval_fock(const ExprPtr& e, const std::vector<Index>& ext,
                                                          const std::vector<int>& modes) {
  std::map<int, int> mode_of;
  for (std::size_t i = 0; i < modes.size(); ++i) mode_of[modes[i]] = (int)i;
  auto ts = flatten(e, ext);
  std::set<int> keep0; std::vector<int> extsym;
  for (auto& i : ext) { int s = syms_.at(i); keep0.insert(s); extsym.push_back(s); }
  std::unordered_map<u64, Z> acc;  // key: ext assignment * 2^28 + row*2^14 + col
  u64 nd = u64(1) << modes.size();
  if (extsym.size() > 12) throw EvalError("too many externals");
  for (int y : extsym) if (orbs(y).size() > 8) throw EvalError("too many orbitals");
  for (auto& t : ts) {
    if (t.coef.zero()) continue;
    auto cnt = slot_counts(t);
    std::set<int> keep = keep0;
    std::vector<const FAtom*> ops;
    for (auto& a : t.atoms) if (a.kind != FAtom::Tensor) {
      if (a.kind != FAtom::FOp) throw EvalError("not a fermion operator");
      ops.push_back(&a);
      for (auto& s : a.ops) { keep.insert(s.first.sym); for (int q : s.first.protos) { (void)q; throw EvalError("proto index on operator"); } }
    }
    for (auto& [s, c] : cnt) if (c == 1 && !keep0.count(s)) throw EvalError("free index not external");
    Arr c = contract(t, keep);
    // loop over all of keep
    std::vector<int> loop(keep.begin(), keep.end());
    std::vector<int> dims; for (int s : loop) dims.push_back((int)orbs(s).size());
    std::map<int, int> pos; for (std::size_t i = 0; i < loop.size(); ++i) pos[loop[i]] = (int)i;
    std::vector<std::size_t> cst(loop.size(), 0);
    { std::size_t s = 1; for (int i = (int)c.syms.size() - 1; i >= 0; --i) { cst[pos[c.syms[i]]] = s; s *= c.dims[i]; } }
    std::vector<int> at(loop.size(), 0);
    std::size_t n = arr_size(dims);
    for (std::size_t it = 0; it < n; ++it) {
      std::size_t ci = 0;
      for (std::size_t i = 0; i < loop.size(); ++i) ci += cst[i] * at[i];
      const Z& cv = c.data[ci];
      if (!cv.zero()) {
        u64 key = 0;
        for (int s : extsym) key = key * 8 + (u64)at[pos[s]];
        // list of alternative op strings (one unless spin-free)
        std::vector<std::pair<int, std::vector<FOpI>>> strs{{1, {}}};
        for (auto* a : ops) {
          std::vector<std::pair<int, std::vector<FOpI>>> mine;
          if (!spinfree_ops) {
            std::vector<FOpI> v;
            for (auto& [fs, cre] : a->ops) {
              int o = orbs(fs.sym)[at[pos[fs.sym]]];
              v.push_back({mode_of.at(o), cre, a->vac == Vacuum::SingleProduct && (m_.orb(o).type & m_.occ_types)});
            }
            int s = a->vac == Vacuum::SingleProduct ? normal_order(v) : 1;
            mine.push_back({s, v});
          } else {
            // columns: creator k pairs with annihilator k; modes are spatial: 2*mode+spin
            int nc = a->ncre, na = (int)a->ops.size() - nc, ncol = std::max(nc, na);
            if (nc != na) throw EvalError("spin-free operator with unequal ranks");
            for (int m = 0; m < (1 << ncol); ++m) {
              std::vector<FOpI> v;
              for (int q = 0; q < (int)a->ops.size(); ++q) {
                auto& [fs, cre] = a->ops[q];
                int col = cre ? q : (int)a->ops.size() - 1 - q;
                int o = orbs(fs.sym)[at[pos[fs.sym]]];
                v.push_back({2 * mode_of.at(o) + ((m >> col) & 1), cre, a->vac == Vacuum::SingleProduct && (m_.orb(o).type & m_.occ_types)});
              }
              int s = a->vac == Vacuum::SingleProduct ? normal_order(v) : 1;
              mine.push_back({s, v});
            }
          }
          std::vector<std::pair<int, std::vector<FOpI>>> nxt;
          for (auto& x : strs) for (auto& y : mine) { auto z = x; z.first *= y.first; z.second.insert(z.second.end(), y.second.begin(), y.second.end()); nxt.push_back(std::move(z)); }
          strs = std::move(nxt);
        }
        u64 ndet = spinfree_ops ? nd * nd : nd;
        for (auto& [sg, ops_] : strs)
          for (u64 d = 0; d < ndet; ++d) {
            u64 x = d;
            int s = apply_string(ops_, x) * sg;
            ++work;
            if (s) { Z& z = acc[(key << 28) | (x << 14) | d]; if (s > 0) z += cv; else z -= cv; }
          }
      }
      for (int d = (int)at.size() - 1; d >= 0; --d) { if (++at[d] < dims[d]) break; at[d] = 0; }
    }
  }
  std::map<std::tuple<u64, u64, u64>, Z> r;
  for (auto& [k, v] : acc) if (!v.zero()) r[{k >> 28, (k >> 14) & 16383, k & 16383}] = v;
  return r;
}

std::map<u64, Z> Evaluator::eval_ops(const ExprPtr& e, const std::vector<Index>& ext, const std::function<Z(const std::vector<std::vector<OpVal>>&)>& fn) {
  auto ts = flatten(e, ext);
  std::set<int> keep0; std::vector<int> extsym;
  for (auto& i : ext) { int s = syms_.at(i); keep0.insert(s); extsym.push_back(s); }
  if (extsym.size() > 12) throw EvalError("too many externals");
  std::map<u64, Z> acc;
  for (auto& t : ts) {
    if (t.coef.zero()) continue;
    auto cnt = slot_counts(t);
    std::set<int> keep = keep0;
    std::vector<const FAtom*> ops;
    for (auto& a : t.atoms) if (a.kind != FAtom::Tensor) {
      if (a.kind == FAtom::Scalar) throw EvalError("unexpected scalar atom");
      ops.push_back(&a);
      for (auto& s : a.ops) { keep.insert(s.first.sym); if (!s.first.protos.empty()) throw EvalError("proto index on operator"); }
    }
    for (auto& [s, c] : cnt) if (c == 1 && !keep0.count(s)) throw EvalError("free index not external");
    Arr c = contract(t, keep);
    std::vector<int> loop(keep.begin(), keep.end());
    std::vector<int> dims; for (int s : loop) dims.push_back((int)orbs(s).size());
    std::map<int, int> pos; for (std::size_t i = 0; i < loop.size(); ++i) pos[loop[i]] = (int)i;
    std::vector<std::size_t> cst(loop.size(), 0);
    { std::size_t s = 1; for (int i = (int)c.syms.size() - 1; i >= 0; --i) { cst[pos[c.syms[i]]] = s; s *= c.dims[i]; } }
    std::vector<int> at(loop.size(), 0);
    std::size_t n = arr_size(dims);
    std::vector<std::vector<OpVal>> v(ops.size());
    for (std::size_t it = 0; it < n; ++it) {
      std::size_t ci = 0;
      for (std::size_t i = 0; i < loop.size(); ++i) ci += cst[i] * at[i];
      const Z& cv = c.data[ci];
      if (!cv.zero()) {
        u64 key = 0;
        for (int s : extsym) key = key * 8 + (u64)at[pos[s]];
        for (std::size_t q = 0; q < ops.size(); ++q) {
          v[q].clear();
          for (auto& [fs, cre] : ops[q]->ops) {
            int o = orbs(fs.sym)[at[pos[fs.sym]]];
            v[q].push_back({o, cre, ops[q]->vac == Vacuum::SingleProduct && (m_.orb(o).type & m_.occ_types)});
          }
        }
        ++work;
        Z w = fn(v);
        if (!w.zero()) acc[key] += cv * w;
      }
      for (int d = (int)at.size() - 1; d >= 0; --d) { if (++at[d] < dims[d]) break; at[d] = 0; }
    }
  }
  for (auto it = acc.begin(); it != acc.end();) if (it->second.zero()) it = acc.erase(it); else ++it;
  return acc;
}

std::map<std::tuple<u64, u64, u64>, Z> Evaluator::eval_bose(const ExprPtr& e, const std::vector<Index>& ext,
                                                          const std::vector<int>& modes, int nmax) {
  std::map<int, int> mode_of;
  for (std::size_t i = 0; i < modes.size(); ++i) mode_of[modes[i]] = (int)i;
  auto ts = flatten(e, ext);
  std::set<int> keep0; std::vector<int> extsym;
  for (auto& i : ext) { int s = syms_.at(i); keep0.insert(s); extsym.push_back(s); }
  std::map<std::tuple<u64, u64, u64>, Z> acc;
  // enumerate initial occupations (6 bits per mode)
  std::vector<u64> init;
  std::function<void(std::size_t, int, u64)> gen = [&](std::size_t m, int left, u64 st) {
    if (m == modes.size()) { init.push_back(st); return; }
    for (int k = 0; k <= left; ++k) gen(m + 1, left - k, st | ((u64)k << (6 * m)));
  };
  gen(0, nmax, 0);
  for (auto& t : ts) {
    if (t.coef.zero()) continue;
    std::set<int> keep = keep0;
    std::vector<std::pair<FSlot, bool>> str;
    for (auto& a : t.atoms) if (a.kind != FAtom::Tensor) {
      if (a.kind != FAtom::BOp || a.vac != Vacuum::Physical) throw EvalError("boson operator expected");
      for (auto& s : a.ops) { keep.insert(s.first.sym); str.push_back(s); }
    }
    auto cnt = slot_counts(t);
    for (auto& [s, c] : cnt) if (c == 1 && !keep0.count(s)) throw EvalError("free index not external");
    Arr c = contract(t, keep);
    std::vector<int> loop(keep.begin(), keep.end());
    std::vector<int> dims; for (int s : loop) dims.push_back((int)orbs(s).size());
    std::map<int, int> pos; for (std::size_t i = 0; i < loop.size(); ++i) pos[loop[i]] = (int)i;
    std::vector<std::size_t> cst(loop.size(), 0);
    { std::size_t s = 1; for (int i = (int)c.syms.size() - 1; i >= 0; --i) { cst[pos[c.syms[i]]] = s; s *= c.dims[i]; } }
    std::vector<int> at(loop.size(), 0);
    std::size_t n = arr_size(dims);
    for (std::size_t it = 0; it < n; ++it) {
      std::size_t ci = 0;
      for (std::size_t i = 0; i < loop.size(); ++i) ci += cst[i] * at[i];
      Z cv = c.data[ci];
      if (!cv.zero()) {
        u64 key = 0;
        for (int s : extsym) key = key * 8 + (u64)at[pos[s]];
        for (u64 d : init) {
          u64 x = d; Z z = cv; bool dead = false;
          for (int q = (int)str.size() - 1; q >= 0 && !dead; --q) {
            int m = mode_of.at(orbs(str[q].first.sym)[at[pos[str[q].first.sym]]]);
            u64 occ = (x >> (6 * m)) & 63;
            if (str[q].second) x += u64(1) << (6 * m);
            else { if (occ == 0) dead = true; else { z *= Z((i64)occ); x -= u64(1) << (6 * m); } }
          }
          ++work;
          if (!dead) acc[{key, x, d}] += z;
        }
      }
      for (int d = (int)at.size() - 1; d >= 0; --d) { if (++at[d] < dims[d]) break; at[d] = 0; }
    }
  }
  for (auto it = acc.begin(); it != acc.end();) if (it->second.zero()) it = acc.erase(it); else ++it;
  return acc;
}

std::vector<Index> sorted(std::vector<Index> v) {
  std::sort(v.begin(), v.end(), [](const Index& a, const Index& b) { return Index::FullLabelCompare{}(a, b); });
  return v;
}
static std::string idx(const Index& i) { return i.nonnull() ? narrow(i.full_label()) : "-"; }
std::string show(const Expr& e) {
  auto num = [](const Constant::scalar_type& c) {
    std::string r = c.real().str();
    if (c.imag() != 0) r = "(" + r + "," + c.imag().str() + ")";
    return r;
  };
  if (e.is<Constant>()) return num(e.as<Constant>().value());
  if (e.is<Variable>()) return narrow(e.as<Variable>().label()) + (e.as<Variable>().conjugated() ? "^*" : "");
  if (e.is<Power>()) return "(" + show(e.as<Power>().base()) + ")^" + e.as<Power>().exponent().str() + (e.as<Power>().conjugated() ? "^*" : "");
  if (e.is<Tensor>()) {
    const auto& t = e.as<Tensor>();
    std::string r = narrow(t.label()) + "{"; const char* c = "";
    for (const auto& i : t.bra()) { r += c + idx(i); c = ","; }
    r += ";"; c = "";
    for (const auto& i : t.ket()) { r += c + idx(i); c = ","; }
    if (t.aux_rank()) { r += ";"; c = ""; for (const auto& i : t.aux()) { r += c + idx(i); c = ","; } }
    r += "}:";
    r += t.symmetry() == Symmetry::Antisymm ? 'A' : t.symmetry() == Symmetry::Symm ? 'S' : 'N';
    r += t.braket_symmetry() == BraKetSymmetry::Conjugate ? 'C' : t.braket_symmetry() == BraKetSymmetry::Symm ? 'S' : 'N';
    r += t.column_symmetry() == ColumnSymmetry::Symm ? 'S' : 'N';
    return r;
  }
  if (e.is<Sum>()) { std::string r = "("; const char* c = ""; for (const auto& x : e.as<Sum>().summands()) { r += c + show(x); c = " + "; } return r + ")"; }
  if (e.is<Product>()) {
    const auto& p = e.as<Product>();
    std::string r = "["; if (p.scalar() != 1 || p.factors().empty()) r += num(p.scalar());
    const char* c = p.scalar() != 1 ? " " : "";
    for (const auto& x : p.factors()) { r += c + show(x); c = e.is<NCProduct>() ? "^" : " "; }
    return r + "]";
  }
  auto ops = [&](const auto& n) {
    std::string r = n.vacuum() == Vacuum::SingleProduct ? "ñ<" : "n<"; const char* c = "";
    for (auto it = n.cbegin(); it != n.cend(); ++it) { r += c + idx(it->index()) + (it->action() == Action::Create ? "+" : ""); c = " "; }
    return r + ">";
  };
  if (e.is<FNOperator>()) return ops(e.as<FNOperator>());
  if (e.is<BNOperator>()) return "b" + ops(e.as<BNOperator>());
  try { return narrow(to_latex(e)); } catch (std::exception& x) { return std::string("<unprintable: ") + x.what() + ">"; }
}
std::string show(const ExprPtr& e) { return e ? show(*e) : "<null>"; }
}  // namespace vf
