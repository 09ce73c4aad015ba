// Convex-polyhedra abstract domain: exact integer-coefficient linear constraints,
// exact simplex over checked 64-bit, then checked 128-bit, integers.
#pragma once
#include <algorithm>
#include <bitset>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef __int128 I;
struct Overflow {};

static inline I cadd(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
static inline I csub(I a, I b) { I r; if (__builtin_sub_overflow(a, b, &r)) throw Overflow(); return r; }
static inline I cmul(I a, I b) {
  if ((a >= -2147483647 && a <= 2147483647 && b >= -((I)1 << 62) && b <= ((I)1 << 62))) return a * b;
  I r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r;
}
static inline I iabs(I a) { return a < 0 ? -a : a; }
static inline I igcd(I a, I b) {
  a = iabs(a); b = iabs(b);
  while (b) {
    if (a <= (I)UINT64_MAX && b <= (I)UINT64_MAX) {
      uint64_t x = (uint64_t)a, y = (uint64_t)b;
      while (y) { uint64_t t = x % y; x = y; y = t; }
      return (I)x;
    }
    I t = a % b; a = b; b = t;
  }
  return a;
}
static inline I fdiv(I a, I b) { I q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
std::string itos(I v);

// linear expression: sum t[i].second * sym(t[i].first) + c ; t sorted by symbol
struct Lin {
  std::vector<std::pair<int, I>> t;
  I c = 0;
  Lin() {}
  Lin(long long k) : c(k) {}
  static Lin konst(I k) { Lin l; l.c = k; return l; }
  static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
  bool isConst() const { return t.empty(); }
  I coef(int s) const { for (auto &p : t) if (p.first == s) return p.second; return 0; }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin &o) const { if (t != o.t) return t < o.t; return c < o.c; }
  std::string str() const;
};
Lin lin_comb(const Lin &a, I ka, const Lin &b, I kb); // ka*a + kb*b
static inline Lin operator+(const Lin &a, const Lin &b) { return lin_comb(a, 1, b, 1); }
static inline Lin operator-(const Lin &a, const Lin &b) { return lin_comb(a, 1, b, -1); }
static inline Lin scale(const Lin &a, I k) { return lin_comb(a, k, Lin(), 0); }
static inline Lin addc(const Lin &a, I k) { Lin r = a; r.c = cadd(r.c, k); return r; }
Lin subst(const Lin &a, int s, const Lin &by);

// conjunction of e >= 0
typedef std::vector<Lin> Cons;
// normalise; returns -1 if trivially false, 0 if trivially true, 1 otherwise
int normalise(Lin &e);
bool feasible(const Cons &cs);                      // rational feasibility (with integer tightening)
bool entails(const Cons &cs, const Lin &e);         // cs |= e >= 0  (over integers, sound)
void addCon(Cons &cs, Lin e, bool &empty);          // add with redundancy check (syntactic)
void reduceCons(Cons &cs);                          // drop redundant constraints
void eliminate(Cons &cs, int s);                    // Fourier-Motzkin

// exact simplex over a fixed constraint set, warm-started from one objective to the next
template <class N> struct Tableau {
  std::vector<std::pair<int, int>> col; int n = 0, m = 0; std::vector<N> T; N D = 1; std::vector<int> basic, nonb, rowOf, colOf; bool feas = false;
  Tableau(const std::vector<const Lin *> &cs); // throws Overflow
  int minimise(const Lin &e, N &num, N &den);
  int column(int sym) const;
  void pivot(int r, int c, std::vector<N> *obj);
};
// 64-bit arithmetic first, 128-bit once that overflows
struct LP {
  std::vector<const Lin *> cs; Cons own;
  std::unique_ptr<Tableau<long long>> a; std::unique_ptr<Tableau<I>> b; bool feas = false;
  LP(const Cons &cs);                      // throws Overflow
  // 1: minimum num/den (den > 0); 0: unbounded below; -1: infeasible. throws Overflow
  int minimise(const Lin &e, I &num, I &den);
  void point(std::map<int, double> &out) const; // current vertex
};
