// Numeric abstract domain: conjunctions of linear (in)equalities over integer
// variables (rational polyhedra with integer tightening and affine equalities).
#pragma once
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>

typedef __int128 i128;
std::string i128s(i128 v);

struct Lin {                       // k + sum coef*var, vars sorted by id
  i128 k = 0;
  std::vector<std::pair<int, i128>> t;
  Lin() {}
  Lin(i128 c) : k(c) {}
  Lin(int c) : k(c) {}
  static Lin var(int v) { Lin l; l.t.push_back({v, 1}); return l; }
  bool isConst() const { return t.empty(); }
  i128 coef(int v) const { for (auto &p : t) if (p.first == v) return p.second; return 0; }
  bool operator==(const Lin &o) const { return k == o.k && t == o.t; }
  bool operator<(const Lin &o) const { if (k != o.k) return k < o.k; return t < o.t; }
  std::string str() const;
};
Lin operator+(const Lin &a, const Lin &b);
Lin operator-(const Lin &a, const Lin &b);
Lin operator*(i128 c, const Lin &a);
inline Lin operator-(const Lin &a) { return (i128)(-1) * a; }

struct VarInfo { std::string name; i128 lo, hi; };
extern std::vector<VarInfo> VARS;
int newVar(const std::string &name, i128 lo, i128 hi);
Lin freshLin(const std::string &name, i128 lo, i128 hi);
const i128 ONE = 1;
inline i128 pow2(unsigned n) { return ONE << n; }

struct Poly {
  std::map<int, Lin> sub;          // solved equalities
  std::vector<Lin> ge;             // each >= 0
  bool bottom = false;

  Lin norm(const Lin &e) const;
  void addEq(const Lin &e);        // e == 0
  void addGe(const Lin &e);        // e >= 0
  void addLe(const Lin &a, const Lin &b) { addGe(b - a); }
  bool checkBottom();              // full LP check; sets bottom
  bool entailsGe(const Lin &e) const;    // e >= 0 in all points
  bool entailsEq(const Lin &e) const { return entailsGe(e) && entailsGe(-e); }
  bool feasibleWith(const std::vector<Lin> &ges) const; // P && all ges>=0 possibly nonempty
  bool constVal(const Lin &e, i128 &out) const;  // provably constant (via equalities only)
  // eliminate every variable not satisfying keep()
  void project(const std::function<bool(int)> &keep);
  void elimVar(int v);
  std::string str() const;
};

// all affine relations over columns that hold in every row-space description.
// For each disjunct d, vals[d][c] is the Lin value of column c. Result: list of
// coefficient vectors (size ncols+1, last = const) with sum a_c*col_c + const == 0.
std::vector<std::vector<i128>> affineHull(const std::vector<std::vector<Lin>> &vals, int ncols);
extern long LPCALLS;
