#include "poly.h"
#include <set>
#include <cstring>

std::string itos(I v) {
  if (v == 0) return "0";
  bool n = v < 0; std::string s;
  unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
  while (u) { s.push_back('0' + (int)(u % 10)); u /= 10; }
  if (n) s.push_back('-');
  std::reverse(s.begin(), s.end());
  return s;
}

std::string Lin::str() const {
  std::string s;
  for (auto &p : t) {
    if (!s.empty() || p.second < 0) s += p.second < 0 ? " - " : " + ";
    I k = iabs(p.second);
    if (k != 1) s += itos(k) + "*";
    s += "s" + std::to_string(p.first);
  }
  if (c != 0 || s.empty()) { s += (c < 0 ? " - " : (s.empty() ? "" : " + ")); s += itos(iabs(c)); }
  return s;
}

Lin lin_comb(const Lin &a, I ka, const Lin &b, I kb) {
  Lin r;
  r.c = cadd(cmul(a.c, ka), cmul(b.c, kb));
  size_t i = 0, j = 0;
  r.t.reserve(a.t.size() + b.t.size());
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
      I v = cmul(a.t[i].second, ka); if (v != 0) r.t.push_back({a.t[i].first, v}); i++;
    } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
      I v = cmul(b.t[j].second, kb); if (v != 0) r.t.push_back({b.t[j].first, v}); j++;
    } else {
      I v = cadd(cmul(a.t[i].second, ka), cmul(b.t[j].second, kb));
      if (v != 0) r.t.push_back({a.t[i].first, v});
      i++; j++;
    }
  }
  return r;
}

Lin subst(const Lin &a, int s, const Lin &by) {
  I k = a.coef(s);
  if (k == 0) return a;
  Lin r = a;
  r.t.erase(std::remove_if(r.t.begin(), r.t.end(), [&](const std::pair<int, I> &p) { return p.first == s; }), r.t.end());
  return lin_comb(r, 1, by, k);
}

int normalise(Lin &e) {
  if (e.t.empty()) return e.c >= 0 ? 0 : -1;
  I g = 0;
  for (auto &p : e.t) { g = igcd(g, p.second); if (g == 1) break; }
  if (g > 1) { for (auto &p : e.t) p.second /= g; e.c = fdiv(e.c, g); }
  return 1;
}

// Simplex with fraction-free pivoting. Every constraint is a slack s_k = lin_k(x) + c_k >= 0; structural variables are free.
static inline long long fadd(long long a, long long b) { long long r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
static inline long long fmul(long long a, long long b) { long long r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
static inline I fadd(I a, I b) { return cadd(a, b); }
static inline I fmul(I a, I b) { return cmul(a, b); }
static inline void conv(I v, long long &o) { if (v > INT64_MAX || v < -INT64_MAX) throw Overflow(); o = (long long)v; }
static inline void conv(I v, I &o) { o = v; }
// (a*p - b*q) / d where the division is known to be exact
static inline long long fma2(long long a, long long p, long long b, long long q, long long d) {
  __int128 v = (__int128)a * p - (__int128)b * q;
  if (d != 1) { if (v <= INT64_MAX && v >= -INT64_MAX) v = (long long)v / d; else v /= d; }
  if (v > INT64_MAX || v < -INT64_MAX) throw Overflow();
  return (long long)v;
}
static inline I fma2(I a, I p, I b, I q, I d) { I v = csub(cmul(a, p), cmul(b, q)); if (d != 1) v /= d; return v; }

template <class N> int Tableau<N>::column(int sym) const {
  auto it = std::lower_bound(col.begin(), col.end(), std::make_pair(sym, 0));
  return it != col.end() && it->first == sym ? it->second : -1;
}
template <class N> void Tableau<N>::pivot(int r, int c, std::vector<N> *obj) {
  int w = n + 1; N *R = &T[(size_t)r * w];
  N p = R[c]; N sg = p < 0 ? -1 : 1; N P = p * sg;
  static thread_local std::vector<int> nz; nz.clear(); for (int j = 0; j < w; j++) if (j != c && R[j] != 0) nz.push_back(j);
  bool same = P == D;
  auto upd = [&](N *row) {
    N aic = row[c];
    if (aic == 0) { if (same) return; for (int j = 0; j < w; j++) if (row[j] != 0) row[j] = fma2(row[j], P, (N)0, (N)0, D); return; }
    if (same) { for (int j : nz) row[j] = fma2(row[j], P, (N)(sg * aic), R[j], D); }
    else { for (int j = 0; j < w; j++) if (j != c && (row[j] != 0 || R[j] != 0)) row[j] = fma2(row[j], P, (N)(sg * aic), R[j], D); }
    row[c] = aic * sg;
  };
  for (int i = 0; i < m; i++) if (i != r) upd(&T[(size_t)i * w]);
  if (obj) upd(obj->data());
  for (int j : nz) R[j] = -R[j] * sg;
  R[c] = D * sg;
  D = P;
  std::swap(basic[r], nonb[c]); rowOf[basic[r]] = r; colOf[basic[r]] = -1; rowOf[nonb[c]] = -1; colOf[nonb[c]] = c;
}
template <class N> Tableau<N>::Tableau(const std::vector<const Lin *> &cs) {
  std::vector<int> sy; for (auto *e : cs) for (auto &p : e->t) sy.push_back(p.first);
  std::sort(sy.begin(), sy.end()); sy.erase(std::unique(sy.begin(), sy.end()), sy.end());
  for (int s : sy) col.push_back({s, n++});
  for (auto *e : cs) { if (e->t.empty()) { if (e->c < 0) return; continue; } m++; }
  int w = n + 1; T.assign((size_t)m * w, 0); basic.resize(m); nonb.resize(n); rowOf.assign(n + m, -1); colOf.assign(n + m, -1);
  int k = 0;
  for (auto *e : cs) { if (e->t.empty()) continue; for (auto &p : e->t) conv(p.second, T[(size_t)k * w + column(p.first)]); conv(e->c, T[(size_t)k * w + n]); basic[k] = n + k; rowOf[n + k] = k; k++; }
  for (int j = 0; j < n; j++) { nonb[j] = j; colOf[j] = j; }
  for (int it = 0;; it++) {
    if (it > 3000) throw Overflow();
    int r = -1, c = -1;
    for (int i = 0; i < m; i++) if (basic[i] >= n && T[(size_t)i * w + n] < 0 && (r < 0 || basic[i] < basic[r])) r = i;
    if (r < 0) break;
    for (int j = 0; j < n; j++) { N a = T[(size_t)r * w + j]; if ((a > 0 || (a < 0 && nonb[j] < n)) && (c < 0 || nonb[j] < nonb[c])) c = j; }
    if (c < 0) return;
    pivot(r, c, nullptr);
  }
  feas = true;
}
template <class N> int Tableau<N>::minimise(const Lin &e, N &num, N &den) {
  if (!feas) return -1;
  int w = n + 1; std::vector<N> o(w, 0); { N k; conv(e.c, k); o[n] = fmul(k, D); }
  for (auto &p : e.t) {
    int v = column(p.first); if (v < 0) return 0; // unconstrained symbol
    N k; conv(p.second, k);
    if (colOf[v] >= 0) o[colOf[v]] = fadd(o[colOf[v]], fmul(k, D));
    else { const N *row = &T[(size_t)rowOf[v] * w]; for (int j = 0; j < w; j++) if (row[j] != 0) o[j] = fadd(o[j], fmul(k, row[j])); }
  }
  for (int it = 0;; it++) {
    if (it > 3000) throw Overflow();
    int c = -1;
    for (int j = 0; j < n; j++) if (o[j] < 0 || (o[j] > 0 && nonb[j] < n)) if (c < 0 || nonb[j] < nonb[c]) c = j;
    if (c < 0) { num = o[n]; den = D; return 1; }
    int dir = o[c] < 0 ? 1 : -1; // direction in which the entering variable moves
    int r = -1; N bn = 0, bd = 1;
    for (int i = 0; i < m; i++) {
      if (basic[i] < n) continue;
      N a = T[(size_t)i * w + c]; if (dir < 0) a = -a;
      if (a >= 0) continue;
      N x = T[(size_t)i * w + n]; // x / -a
      N l = r < 0 ? 0 : fmul(x, bd), rr = r < 0 ? 0 : fmul(bn, (N)-a);
      if (r < 0 || l < rr || (l == rr && basic[i] < basic[r])) { r = i; bn = x; bd = -a; }
    }
    if (r < 0) return 0;
    pivot(r, c, &o);
  }
}
LP::LP(const Cons &c) : own(c) {
  for (auto &e : own) cs.push_back(&e);
  try { a.reset(new Tableau<long long>(cs)); feas = a->feas; } catch (Overflow &) { a.reset(); b.reset(new Tableau<I>(cs)); feas = b->feas; }
}
int LP::minimise(const Lin &e, I &num, I &den) {
  if (a) {
    try { long long x, y; int r = a->minimise(e, x, y); num = x; den = y; return r; }
    catch (Overflow &) { a.reset(); b.reset(new Tableau<I>(cs)); }
  }
  if (!b) throw Overflow();
  return b->minimise(e, num, den);
}
template <class N> static void vertex(const Tableau<N> &t, std::map<int, double> &out) { for (auto &c : t.col) { int v = c.second; out[c.first] = t.colOf[v] >= 0 ? 0.0 : (double)t.T[(size_t)t.rowOf[v] * (t.n + 1) + t.n] / (double)t.D; } }
void LP::point(std::map<int, double> &out) const { if (a) vertex(*a, out); else if (b) vertex(*b, out); }

static bool feasibleRaw(const std::vector<const Lin *> &cs) {
  try { return Tableau<long long>(cs).feas; } catch (Overflow &) { return Tableau<I>(cs).feas; }
}

bool feasible(const Cons &cs) {
  std::vector<const Lin *> v;
  for (auto &e : cs) {
    if (e.t.empty()) { if (e.c < 0) return false; continue; }
    v.push_back(&e);
  }
  try { return feasibleRaw(v); } catch (Overflow &) { return true; }
}

// restrict to the connected component of e's symbols
static void component(const Cons &cs, const Lin &e, std::vector<const Lin *> &out) {
  std::set<int> syms;
  for (auto &p : e.t) syms.insert(p.first);
  std::vector<char> used(cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto &p : cs[i].t) if (syms.count(p.first)) { hit = true; break; }
      if (hit) { used[i] = 1; out.push_back(&cs[i]); for (auto &p : cs[i].t) if (syms.insert(p.first).second) ch = true; }
    }
  }
}

bool entails(const Cons &cs, const Lin &e0) {
  Lin e = e0;
  try {
    int k = normalise(e);
    if (k == 0) return true;
    if (k < 0) return !feasible(cs);
    for (auto &c : cs) if (c.t == e.t && c.c <= e.c) return true;
    Lin ne = scale(e, -1); ne.c = csub(ne.c, 1);
    std::vector<const Lin *> v;
    component(cs, e, v);
    v.push_back(&ne);
    return !feasibleRaw(v);
  } catch (Overflow &) { return false; }
}

void addCon(Cons &cs, Lin e, bool &empty) {
  int k = normalise(e);
  if (k == 0) return;
  if (k < 0) { empty = true; return; }
  for (auto &c : cs) if (c.t == e.t) { if (c.c <= e.c) return; c.c = e.c; return; }
  cs.push_back(std::move(e));
}

void reduceCons(Cons &cs) {
  for (size_t i = 0; i < cs.size();) {
    Cons rest; rest.reserve(cs.size());
    for (size_t j = 0; j < cs.size(); j++) if (j != i) rest.push_back(cs[j]);
    if (entails(rest, cs[i])) cs.swap(rest); else i++;
  }
}

void eliminate(Cons &cs, int s) {
  Cons pos, neg, out;
  for (auto &e : cs) { I k = e.coef(s); if (k > 0) pos.push_back(e); else if (k < 0) neg.push_back(e); else out.push_back(e); }
  bool empty = false;
  for (auto &p : pos) for (auto &q : neg) {
    Lin r = lin_comb(p, -q.coef(s), q, p.coef(s));
    addCon(out, r, empty);
    if (empty) { Lin f; f.c = -1; out.clear(); out.push_back(f); cs.swap(out); return; }
  }
  cs.swap(out);
}

