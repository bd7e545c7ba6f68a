#include "report.hpp"
#include "gen.hpp"
#include <SeQuant/core/context.hpp>
#include <algorithm>
#include <set>
namespace vf {
using namespace sequant;
using std::vector;

Index Names::fresh(const std::wstring& space) {
  int k = next_.emplace(space, first_).first->second++; if (k >= 99) throw Discard{};
  return Index(space + L"_" + std::to_wstring(k));
}
Index Names::fresh(const std::wstring& space, const vector<Index>& protos) {
  int k = next_.emplace(space, first_).first->second++; if (k >= 99) throw Discard{};
  if (protos.empty()) return Index(space + L"_" + std::to_wstring(k));
  return Index(space + L"_" + std::to_wstring(k), container::vector<Index>(protos.begin(), protos.end()));
}
vector<Index> Ext::all() const {
  vector<Index> v = bra; v.insert(v.end(), ket.begin(), ket.end()); v.insert(v.end(), aux.begin(), aux.end()); return v;
}
Ext Gen::externals(Names& n, int nb, int nk, int na) {
  Ext e;
  for (int i = 0; i < nb; ++i) e.bra.push_back(n.fresh(r.pick(p.spaces)));
  for (int i = 0; i < nk; ++i) e.ket.push_back(n.fresh(r.pick(p.spaces)));
  for (int i = 0; i < na; ++i) if (!p.aux_spaces.empty()) e.aux.push_back(n.fresh(r.pick(p.aux_spaces)));
  return e;
}
Constant::scalar_type Gen::scalar(bool nonzero) {
  auto q = [&] { return rational(r.range(-6, 6), r.range(1, 6)); };
  rational re = q();
  if (nonzero && re == 0) re = 1;
  rational im = p.complex_scalars && r.chance(1, 5) ? q() : rational(0);
  return Constant::scalar_type(re, im);
}
ExprPtr Gen::scalar_factor() {
  switch (r(p.powers ? 4 : 2)) {
    case 0: return ex<Constant>(scalar());
    case 1: { static const wchar_t* v[] = {L"α", L"ω", L"z"};
      auto x = ex<Variable>(v[r(3)]); if (p.complex_scalars && r.chance(1, 3)) x->as<Variable>().conjugate(); return x; }
    case 2: { static const wchar_t* v[] = {L"α", L"ω", L"z"}; static const int den[] = {1, 1, 2, 3};
      return ex<Power>(ex<Variable>(v[r(3)]), rational(r.range(-3, 3), den[r(4)])); }
    default: return ex<Power>(ex<Constant>(rational(r.range(1, 5), r.range(1, 3))), rational(r.range(-2, 3)));
  }
}
ExprPtr Gen::tensor(int label, vector<Index> b, vector<Index> k, vector<Index> x) {
  static const wchar_t* names[] = {L"F", L"G", L"T", L"V", L"W", L"Y"};
  std::wstring lab = p.label_prefix + names[label % 6];
  u64 h = comb(comb(comb(useed, label), b.size() * 16 + k.size()), x.size());
  Rng q(h);
  Symmetry s = Symmetry::Nonsymm; BraKetSymmetry bk = BraKetSymmetry::Nonsymm; ColumnSymmetry cs = ColumnSymmetry::Symm;
  int w = q(8);
  if (p.allow_antisymm && w < 3) s = Symmetry::Antisymm;
  else if (p.allow_symm && w == 3) s = Symmetry::Symm;
  else if (p.allow_colnonsymm && w == 4) cs = ColumnSymmetry::Nonsymm;
  int w2 = q(6);
  if (b.size() == k.size() && !b.empty()) {
    if (p.allow_bkconj && w2 < 2) bk = BraKetSymmetry::Conjugate;
    else if (p.allow_bksymm && w2 < 4) bk = BraKetSymmetry::Symm;
  }
  container::svector<Index> B(b.begin(), b.end()), K(k.begin(), k.end()), X(x.begin(), x.end());
  return ex<Tensor>(lab, bra(B), ket(K), aux(X), s, bk, cs);
}
vector<ExprPtr> Gen::network_tensors(const Ext& e, Names& n, int mint) {
  for (int attempt = 0; attempt < 200; ++attempt) {
    Names names = n;
    int nt = r.range(mint, p.max_tensors), nd = r.range(0, p.max_dummies);
    vector<vector<Index>> B(nt), K(nt), X(nt);
    auto place = [&](vector<vector<Index>>& S, const Index& i, int avoid) -> int {
      for (int q = 0; q < 20; ++q) {
        int t = r(nt);
        if (t == avoid || (int)S[t].size() >= p.max_rank) continue;
        S[t].push_back(i); return t;
      }
      return -1;
    };
    bool ok = true;
    for (auto& i : e.bra) ok = ok && place(B, i, -1) >= 0;
    for (auto& i : e.ket) ok = ok && place(K, i, -1) >= 0;
    for (auto& i : e.aux) ok = ok && place(X, i, -1) >= 0;
    vector<Index> protos;
    if (p.proto) for (auto& i : e.bra) if (i.space().base_key() == p.spaces[0] && !i.has_proto_indices()) protos.push_back(i);
    for (int d = 0; ok && d < nd; ++d) {
      std::wstring sp = r.pick(p.spaces);
      Index i = p.proto && sp != p.spaces[0] && !protos.empty() && r.chance(1, 2)
                    ? names.fresh(sp, [&] { vector<Index> v{protos[r((int)protos.size())]}; if (protos.size() > 1 && r.chance(1, 2)) { auto& o = protos[r((int)protos.size())]; if (!(o == v[0])) v.push_back(o); } return v; }())
                    : names.fresh(sp);
      int t = place(B, i, -1);
      if (t < 0) { ok = false; break; }
      if (place(K, i, p.traces ? -1 : t) < 0) { ok = false; break; }
      if (p.proto && i.space().base_key() == p.spaces[0]) protos.push_back(i);
    }
    if (!p.aux_spaces.empty() && ok) {
      int na = r.range(0, p.max_aux_dummies);
      for (int d = 0; d < na && ok && nt > 1; ++d) {
        Index i = names.fresh(r.pick(p.aux_spaces));
        int want = r.range(2, std::min(3, nt));
        vector<int> ts; for (int t = 0; t < nt; ++t) ts.push_back(t);
        r.shuffle(ts);
        int done = 0;
        for (int t : ts) if (done < want && (int)X[t].size() < p.max_rank) { X[t].push_back(i); ++done; }
        if (done < 2) ok = false;
      }
    }
    for (int t = 0; ok && t < nt; ++t) if (B[t].empty() && K[t].empty() && X[t].empty()) ok = false;
    if (!ok) continue;
    vector<ExprPtr> f;
    for (int t = 0; t < nt; ++t) { r.shuffle(B[t]); r.shuffle(K[t]); r.shuffle(X[t]); f.push_back(tensor(r(p.n_labels), B[t], K[t], X[t])); }
    n = names;
    return f;
  }
  // fall back: a single tensor carrying all externals
  return {tensor(0, e.bra, e.ket, e.aux)};
}
ExprPtr make_product(const vector<ExprPtr>& f, const Constant::scalar_type& c) {
  auto pr = std::make_shared<Product>();
  pr->scale(c);
  for (auto& x : f) pr->append(1, x->clone(), Product::Flatten::No);
  return ExprPtr(pr);
}
ExprPtr Gen::network(const Ext& e, Names& n, int mint) {
  auto f = network_tensors(e, n, mint);
  if (p.variables && r.chance(1, 4)) f.insert(f.begin() + r((int)f.size() + 1), scalar_factor());
  if (f.size() == 1 && r.chance(1, 3)) return f[0];
  return make_product(f, r.chance(1, 3) ? Constant::scalar_type(1) : scalar());
}
ExprPtr Gen::nested(const Ext& e, Names& n, int depth) {
  int what = depth <= 0 ? 0 : r(4);
  bool scal = e.bra.empty() && e.ket.empty() && e.aux.empty();
  if (what == 0) {
    if (scal && r.chance(1, 4)) return scalar_factor();
    return network(e, n);
  }
  if (what == 1) {  // sum
    int k = r.range(2, 3);
    auto s = std::make_shared<Sum>();
    Names used = n;
    for (int i = 0; i < k; ++i) {
      Names mine = r.chance(2, 3) ? n : used;
      auto t = nested(e, mine, depth - 1);
      for (auto& [sp, c] : mine.next_) { auto& u = used.next_.emplace(sp, c).first->second; u = std::max(u, c); }
      s->append(t);
    }
    n = used;
    return ExprPtr(s);
  }
  // product of two or three parts, linked by new dummies
  int k = r.range(2, 3);
  vector<Ext> parts(k);
  for (auto& i : e.bra) parts[r(k)].bra.push_back(i);
  for (auto& i : e.ket) parts[r(k)].ket.push_back(i);
  for (auto& i : e.aux) parts[r(k)].aux.push_back(i);
  int links = r.range(0, 2);
  for (int l = 0; l < links; ++l) {
    Index i = n.fresh(r.pick(p.spaces));
    int a = r(k), b = (a + 1 + r(k - 1)) % k;
    if (parts[a].bra.size() >= (std::size_t)p.max_rank || parts[b].ket.size() >= (std::size_t)p.max_rank) continue;
    parts[a].bra.push_back(i); parts[b].ket.push_back(i);
  }
  auto pr = std::make_shared<Product>();
  if (r.chance(1, 2)) pr->scale(scalar());
  for (auto& q : parts) {
    auto t = nested(q, n, depth - 1);
    switch (r(3)) {
      case 0: pr->append(1, t, Product::Flatten::No); break;
      case 1: pr->append(1, t, Product::Flatten::Once); break;
      default: pr->append(1, t, Product::Flatten::Recursively); break;
    }
  }
  return ExprPtr(pr);
}

Scrambled scramble(Rng& r, const vector<ExprPtr>& tensors, const vector<Index>& ext, Names& fresh, bool rename, bool reorder, bool slots) {
  Scrambled out;
  std::set<Index, Index::FullLabelCompare> E(ext.begin(), ext.end());
  for (auto& i : ext) for (auto& q : i.proto_indices()) E.insert(q);
  std::map<Index, Index, Index::FullLabelCompare> map;
  // deterministic order: first collect all dummies then rename in random order
  if (rename) {
    vector<Index> dum; std::set<Index, Index::FullLabelCompare> seen;
    auto visit = [&](const Index& i) { if (i.nonnull() && !E.count(i) && seen.insert(i).second) dum.push_back(i); };
    for (auto& t : tensors) {
      if (!t->is<Tensor>()) continue;
      for (auto& i : t->as<Tensor>().bra()) visit(i);
      for (auto& i : t->as<Tensor>().ket()) visit(i);
      for (auto& i : t->as<Tensor>().aux()) visit(i);
    }
    r.shuffle(dum);
    // plain dummies first so that protos can be mapped
    std::stable_sort(dum.begin(), dum.end(), [](const Index& a, const Index& b) { return a.has_proto_indices() < b.has_proto_indices(); });
    for (auto& i : dum) {
      std::wstring base(i.space().base_key());
      if (!i.has_proto_indices()) map.emplace(i, fresh.fresh(base));
      else {
        vector<Index> ps;
        for (auto& q : i.proto_indices()) { auto it = map.find(q); ps.push_back(it == map.end() ? q : it->second); }
        map.emplace(i, fresh.fresh(base, ps));
      }
    }
  }
  auto M = [&](const Index& i) { auto it = map.find(i); return it == map.end() ? i : it->second; };
  for (auto& t : tensors) {
    if (!t->is<Tensor>()) { out.factors.push_back(t->clone()); continue; }
    const auto& x = t->as<Tensor>();
    vector<Index> b, k, a;
    for (auto& i : x.bra()) b.push_back(M(i));
    for (auto& i : x.ket()) k.push_back(M(i));
    for (auto& i : x.aux()) a.push_back(M(i));
    if (slots) {
      auto perm = [&](vector<Index>& v) { int s = 1; for (int i = (int)v.size() - 1; i > 0; --i) { int j = r(i + 1); if (j != i) { std::swap(v[i], v[j]); s = -s; } } return s; };
      if (x.symmetry() == Symmetry::Antisymm) out.sign *= perm(b) * perm(k);
      else if (x.symmetry() == Symmetry::Symm) { perm(b); perm(k); }
      else if (x.column_symmetry() == ColumnSymmetry::Symm) {
        // permute columns; unpaired slots may only be permuted among themselves
        std::size_t m = std::min(b.size(), k.size());
        vector<int> o(m); for (std::size_t i = 0; i < m; ++i) o[i] = (int)i;
        r.shuffle(o);
        auto b0 = b, k0 = k;
        for (std::size_t i = 0; i < m; ++i) { b[i] = b0[o[i]]; k[i] = k0[o[i]]; }
        auto& lng = b.size() > k.size() ? b : k;
        for (int i = (int)lng.size() - 1; i > (int)m; --i) std::swap(lng[i], lng[m + r(i - (int)m + 1)]);
      }
      if (x.braket_symmetry() == BraKetSymmetry::Symm && r.chance(1, 2)) std::swap(b, k);
    }
    container::svector<Index> B(b.begin(), b.end()), K(k.begin(), k.end()), X(a.begin(), a.end());
    out.factors.push_back(ex<Tensor>(std::wstring(x.label()), bra(B), ket(K), aux(X), x.symmetry(), x.braket_symmetry(), x.column_symmetry()));
  }
  if (reorder) r.shuffle(out.factors);
  return out;
}
}  // namespace vf
