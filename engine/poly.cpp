#include "poly.hpp"
#include <gmpxx.h>
#include <sstream>
#include <unordered_map>

std::vector<VarInfo> VARS;
long LPCALLS = 0;

std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0; std::string s;
  while (v != 0) { int d = (int)(v % 10); if (d < 0) d = -d; s += char('0' + d); v /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
std::string Lin::str() const {
  std::string s;
  for (auto &p : t) {
    if (!s.empty() || p.second < 0) s += p.second < 0 ? " - " : " + ";
    i128 a = p.second < 0 ? -p.second : p.second;
    if (a != 1) s += i128s(a) + "*";
    s += VARS[p.first].name + "#" + std::to_string(p.first);
  }
  if (k != 0 || s.empty()) { s += k < 0 ? " - " : (s.empty() ? "" : " + "); s += i128s(k < 0 ? -k : k); }
  return s;
}
static Lin comb(i128 ca, const Lin &a, i128 cb, const Lin &b) {
  Lin r; r.k = ca * a.k + cb * b.k;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { r.t.push_back({a.t[i].first, ca * a.t[i].second}); i++; }
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, cb * b.t[j].second}); j++; }
    else { i128 c = ca * a.t[i].second + cb * b.t[j].second; if (c != 0) r.t.push_back({a.t[i].first, c}); i++; j++; }
  }
  return r;
}
Lin operator+(const Lin &a, const Lin &b) { return comb(1, a, 1, b); }
Lin operator-(const Lin &a, const Lin &b) { return comb(1, a, -1, b); }
Lin operator*(i128 c, const Lin &a) { if (c == 0) return Lin(); Lin r = a; r.k *= c; for (auto &p : r.t) p.second *= c; return r; }
int newVar(const std::string &name, i128 lo, i128 hi) { VARS.push_back({name, lo, hi}); return (int)VARS.size() - 1; }
Lin freshLin(const std::string &name, i128 lo, i128 hi) { if (lo == hi) return Lin(lo); return Lin::var(newVar(name, lo, hi)); }

static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }

Lin Poly::norm(const Lin &e) const {
  bool need = false;
  for (auto &p : e.t) if (sub.count(p.first)) { need = true; break; }
  if (!need) return e;
  Lin r; r.k = e.k;
  for (auto &p : e.t) {
    auto it = sub.find(p.first);
    if (it == sub.end()) { Lin v; v.t.push_back(p); r = r + v; }
    else r = r + p.second * it->second;
  }
  return r;
}
static i128 minBound(const Lin &e) {  // lower bound using intrinsic ranges
  i128 m = e.k;
  for (auto &p : e.t) m += p.second > 0 ? p.second * VARS[p.first].lo : p.second * VARS[p.first].hi;
  return m;
}
void Poly::addGe(const Lin &e0) {
  if (bottom) return;
  Lin e = norm(e0);
  if (e.isConst()) { if (e.k < 0) bottom = true; return; }
  i128 g = 0; for (auto &p : e.t) g = gcd128(g, p.second);
  if (g > 1) { for (auto &p : e.t) p.second /= g; e.k = floordiv(e.k, g); }
  if (minBound(e) >= 0) return;
  if (minBound(-e) > 0) { bottom = true; return; }   // e < 0 always
  // dedupe / opposite
  for (auto &o : ge) {
    if (o.t == e.t) { if (e.k < o.k) { o.k = e.k; goto opp; } return; }
  }
  ge.push_back(e);
opp:
  {
    Lin ne = -e;
    for (size_t i = 0; i < ge.size(); i++) {
      if (ge[i].t == ne.t) {
        i128 s = ge[i].k + e.k;      // (L + k1 >=0) and (-L + k2 >= 0): k1+k2 >= 0
        if (s < 0) { bottom = true; return; }
        if (s == 0) {
          Lin eq = e;
          bool unit = false; for (auto &p : eq.t) if (p.second == 1 || p.second == -1) unit = true;
          if (unit) { ge.erase(ge.begin() + i); ge.erase(std::remove(ge.begin(), ge.end(), e), ge.end()); addEq(eq); return; }
        }
      }
    }
    // single-variable bound meeting intrinsic bound => equality
    if (e.t.size() == 1) {
      int v = e.t[0].first; i128 c = e.t[0].second;
      if (c == 1 && -e.k == VARS[v].hi) { addEq(e); return; }
      if (c == -1 && e.k == VARS[v].lo) { addEq(e); return; }
    }
  }
}
void Poly::addEq(const Lin &e0) {
  if (bottom) return;
  Lin e = norm(e0);
  if (e.isConst()) { if (e.k != 0) bottom = true; return; }
  i128 g = 0; for (auto &p : e.t) g = gcd128(g, p.second);
  if (g > 1) { if (e.k % g != 0) { bottom = true; return; } for (auto &p : e.t) p.second /= g; e.k /= g; }
  int best = -1; i128 bc = 0;
  for (auto &p : e.t) if (p.second == 1 || p.second == -1) { best = p.first; bc = p.second; }
  if (best < 0) {
    // no unit coefficient: keep as a pair of inequalities
    bool have = false; Lin ne = -e;
    for (auto &o : ge) if (o == e) have = true;
    if (!have) { ge.push_back(e); }
    have = false; for (auto &o : ge) if (o == ne) have = true;
    if (!have) ge.push_back(ne);
    return;
  }
  // bc*best + rest = 0 -> best = -rest/bc
  Lin rest = e; rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](const std::pair<int, i128> &p) { return p.first == best; }), rest.t.end());
  Lin rhs = (bc == 1) ? -rest : rest;
  for (auto &s : sub) { i128 c = s.second.coef(best); if (c != 0) { Lin v; v.t.push_back({best, c}); s.second = s.second - v + c * rhs; } }
  sub[best] = rhs;
  std::vector<Lin> old; old.swap(ge);
  for (auto &o : old) { addGe(o); if (bottom) return; }
  addGe(rhs - Lin(VARS[best].lo)); if (bottom) return;
  addGe(Lin(VARS[best].hi) - rhs);
}

// ---- exact LP feasibility -------------------------------------------------
struct Ovf {};
struct R128 { i128 n, d; };
static inline i128 mulo(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline i128 addo(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline R128 mk(i128 n, i128 d) { if (d == 1) return {n, 1}; if (n == 0) return {0, 1}; i128 g = gcd128(n, d); if (d < 0) g = -g; return {n / g, d / g}; }
static inline R128 radd(const R128 &a, const R128 &b) { if (a.d == 1 && b.d == 1) return {addo(a.n, b.n), 1}; return mk(addo(mulo(a.n, b.d), mulo(b.n, a.d)), mulo(a.d, b.d)); }
static inline R128 rmul(const R128 &a, const R128 &b) { if (a.n == 0 || b.n == 0) return {0, 1}; if (a.d == 1 && b.d == 1) return {mulo(a.n, b.n), 1}; i128 g1 = gcd128(a.n, b.d), g2 = gcd128(b.n, a.d); return mk(mulo(a.n / g1, b.n / g2), mulo(a.d / g2, b.d / g1)); }
static inline R128 rneg(const R128 &a) { return {-a.n, a.d}; }
static inline R128 rinv(const R128 &a) { return a.n < 0 ? R128{-a.d, -a.n} : R128{a.d, a.n}; }
static inline bool rzero(const R128 &a) { return a.n == 0; }
static inline int rsgn(const R128 &a) { return a.n < 0 ? -1 : a.n > 0; }
static inline mpz_class toz(i128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; mpz_class hi = (unsigned long)(u >> 64), lo = (unsigned long)u; mpz_class r = (hi << 64) + lo; return neg ? mpz_class(-r) : r; }
struct RM { mpq_class v; };
static inline RM radd(const RM &a, const RM &b) { return {a.v + b.v}; }
static inline RM rmul(const RM &a, const RM &b) { return {a.v * b.v}; }
static inline RM rneg(const RM &a) { return {-a.v}; }
static inline RM rinv(const RM &a) { return {1 / a.v}; }
static inline bool rzero(const RM &a) { return sgn(a.v) == 0; }
static inline int rsgn(const RM &a) { return sgn(a.v); }
template <class R> R mkR(i128 v);
template <> R128 mkR<R128>(i128 v) { return {v, 1}; }
template <> RM mkR<RM>(i128 v) { return {mpq_class(toz(v))}; }

// rows: each  const + sum coef*x >= 0 ; x >= 0. returns feasible?  (least-index pivoting)
struct Row { i128 k; std::vector<std::pair<int, i128>> t; };
template <class R>
static bool lpFeasible(const std::vector<Row> &rows, size_t n) {
  size_t m = rows.size();
  // tableau: basic row i: const + sum a[i][j]*nonbasic_j
  std::vector<std::vector<R>> a(m, std::vector<R>(n, mkR<R>(0)));
  std::vector<R> b(m, mkR<R>(0)), row(n, mkR<R>(0));
  std::vector<int> basic(m), nb(n);   // ids: 0..n-1 = x, n+i = slack i
  for (size_t i = 0; i < m; i++) { basic[i] = (int)(n + i); b[i] = mkR<R>(rows[i].k); for (auto &p : rows[i].t) a[i][p.first] = mkR<R>(p.second); }
  for (size_t j = 0; j < n; j++) nb[j] = (int)j;
  for (int iter = 0; iter < 5000; iter++) {
    int r = -1;
    for (size_t i = 0; i < m; i++) if (rsgn(b[i]) < 0) if (r < 0 || basic[i] < basic[r]) r = (int)i;
    if (r < 0) return true;
    int c = -1;
    for (size_t j = 0; j < n; j++) if (rsgn(a[r][j]) > 0) if (c < 0 || nb[j] < nb[c]) c = (int)j;
    if (c < 0) return false;
    // basic[r] = b + sum a[r][j] nb_j ; solve for nb_c
    R inv = rinv(a[r][c]);
    for (size_t j = 0; j < n; j++) { if ((int)j != c && !rzero(a[r][j])) row[j] = rneg(rmul(a[r][j], inv)); else row[j] = mkR<R>(0); }
    row[c] = inv;
    R bb = rneg(rmul(b[r], inv));
    for (size_t i = 0; i < m; i++) if ((int)i != r && !rzero(a[i][c])) {
      R f = a[i][c];
      for (size_t j = 0; j < n; j++) { if ((int)j == c) a[i][j] = rmul(f, row[c]); else if (!rzero(row[j])) a[i][j] = radd(a[i][j], rmul(f, row[j])); }
      b[i] = radd(b[i], rmul(f, bb));
    }
    a[r] = row; b[r] = bb; std::swap(basic[r], nb[c]);
  }
  return true;  // give up: assume feasible (sound: nothing proven)
}
static std::unordered_map<std::string, bool> FCACHE;
static bool feasible(const std::vector<Lin> &rows0) {
  // rename the variables by first occurrence and shift each to start at zero
  std::unordered_map<int, int> idx; std::vector<int> vars; std::vector<Row> rows; rows.reserve(rows0.size() * 2);
  for (auto &r : rows0) {
    Row w; i128 k = r.k; w.t.reserve(r.t.size());
    for (auto &p : r.t) { auto f = idx.emplace(p.first, (int)vars.size()); if (f.second) vars.push_back(p.first); w.t.push_back({f.first->second, p.second}); k += p.second * VARS[p.first].lo; }
    w.k = k; if (w.t.empty() && k < 0) return false;
    rows.push_back(std::move(w));
  }
  for (size_t j = 0; j < vars.size(); j++) { Row w; w.k = VARS[vars[j]].hi - VARS[vars[j]].lo; w.t.push_back({(int)j, -1}); rows.push_back(std::move(w)); }
  std::string key; key.reserve(rows.size() * 40);
  for (auto &r : rows) { key.append((const char *)&r.k, sizeof r.k); for (auto &p : r.t) { key.append((const char *)&p.first, sizeof p.first); key.append((const char *)&p.second, sizeof p.second); } key.push_back(';'); }
  auto it = FCACHE.find(key); if (it != FCACHE.end()) return it->second;
  LPCALLS++;
  bool res;
  try { res = lpFeasible<R128>(rows, vars.size()); } catch (Ovf &) { res = lpFeasible<RM>(rows, vars.size()); }
  if (FCACHE.size() > 400000) FCACHE.clear();
  FCACHE.emplace(std::move(key), res); return res;
}
static std::vector<Lin> component(const std::vector<Lin> &ge, const std::vector<Lin> &seed) {
  std::set<int> vs; for (auto &s : seed) for (auto &p : s.t) vs.insert(p.first);
  std::vector<char> in(ge.size(), 0); bool ch = true;
  std::vector<Lin> out;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < ge.size(); i++) if (!in[i]) {
      bool hit = false; for (auto &p : ge[i].t) if (vs.count(p.first)) { hit = true; break; }
      if (hit) { in[i] = 1; out.push_back(ge[i]); ch = true; for (auto &p : ge[i].t) vs.insert(p.first); }
    }
  }
  return out;
}
bool Poly::checkBottom() {
  if (bottom) return true;
  if (ge.empty()) return false;
  if (!feasible(ge)) bottom = true;
  return bottom;
}
bool Poly::entailsGe(const Lin &e0) const {
  if (bottom) return true;
  Lin e = norm(e0);
  if (e.isConst()) return e.k >= 0;
  if (minBound(e) >= 0) return true;
  i128 g = 0; for (auto &p : e.t) g = gcd128(g, p.second);
  if (g > 1) { for (auto &p : e.t) p.second /= g; e.k = floordiv(e.k, g); if (minBound(e) >= 0) return true; }
  for (auto &o : ge) if (o.t == e.t && o.k <= e.k) return true;
  Lin neg = -e - Lin(1);
  Lin nn = neg;
  std::vector<Lin> seed{nn};
  std::vector<Lin> rows = component(ge, seed);
  rows.push_back(nn);
  return !feasible(rows);
}
bool Poly::feasibleWith(const std::vector<Lin> &ges) const {
  Poly q = *this;
  for (auto &e : ges) { q.addGe(e); if (q.bottom) return false; }
  return !q.checkBottom();
}
bool Poly::constVal(const Lin &e0, i128 &out) const {
  Lin e = norm(e0); if (e.isConst()) { out = e.k; return true; } return false;
}
void Poly::elimVar(int v) {
  if (bottom) return;
  if (sub.count(v)) { sub.erase(v); return; }   // v only defined by others
  // appears in some sub rhs? re-solve that equality for v's removal
  for (auto it = sub.begin(); it != sub.end(); ++it) {
    i128 c = it->second.coef(v);
    if (c == 1 || c == -1) {
      // var = c*v + rest  ->  v = c*(var - rest)
      int w = it->first; Lin rest = it->second; { Lin tv; tv.t.push_back({v, c}); rest = rest - tv; }
      Lin rhs = c * (Lin::var(w) - rest);
      sub.erase(it);
      for (auto &s : sub) { i128 cc = s.second.coef(v); if (cc != 0) { Lin tv; tv.t.push_back({v, cc}); s.second = s.second - tv + cc * rhs; } }
      std::vector<Lin> old; old.swap(ge);
      std::vector<Lin> nw; for (auto &o : old) { i128 cc = o.coef(v); if (cc != 0) { Lin tv; tv.t.push_back({v, cc}); nw.push_back(o - tv + cc * rhs); } else nw.push_back(o); }
      nw.push_back(rhs - Lin(VARS[v].lo)); nw.push_back(Lin(VARS[v].hi) - rhs);
      for (auto &o : nw) addGe(o);
      return;
    }
  }
  // remaining equalities with non-unit coefficient on v: turn into inequalities
  std::vector<Lin> extra;
  for (auto it = sub.begin(); it != sub.end();) {
    if (it->second.coef(v) != 0) { Lin e = Lin::var(it->first) - it->second; extra.push_back(e); extra.push_back(-e); it = sub.erase(it); } else ++it;
  }
  std::vector<Lin> pos, neg, rest;
  auto place = [&](const Lin &o) { i128 c = o.coef(v); if (c > 0) pos.push_back(o); else if (c < 0) neg.push_back(o); else rest.push_back(o); };
  for (auto &o : ge) place(o);
  for (auto &o : extra) place(o);
  pos.push_back(Lin::var(v) - Lin(VARS[v].lo)); neg.push_back(Lin(VARS[v].hi) - Lin::var(v));
  ge.clear();
  for (auto &o : rest) addGe(o);
  if (pos.size() * neg.size() <= 400)
    for (auto &p : pos) for (auto &q : neg) {
      i128 cp = p.coef(v), cq = -q.coef(v);
      if (cp > (ONE << 40) || cq > (ONE << 40)) continue;
      Lin r = cq * p + cp * q; 
      bool big = false; for (auto &x : r.t) if (x.second > (ONE << 50) || x.second < -(ONE << 50)) big = true;
      if (!big && r.t.size() <= 12) addGe(r);
      if (bottom) return;
    }
}
void Poly::project(const std::function<bool(int)> &keep) {
  if (bottom) return;
  std::set<int> vs;
  for (auto &s : sub) { vs.insert(s.first); for (auto &p : s.second.t) vs.insert(p.first); }
  for (auto &o : ge) for (auto &p : o.t) vs.insert(p.first);
  std::vector<int> el; for (int v : vs) if (!keep(v)) el.push_back(v);
  // eliminate solved ones first
  for (int v : el) if (sub.count(v)) sub.erase(v);
  while (true) {
    // choose cheapest remaining
    int best = -1; long bc = 0;
    std::map<int, std::pair<int, int>> cnt; std::set<int> inSub;
    for (auto &s : sub) for (auto &p : s.second.t) if (!keep(p.first)) { cnt[p.first]; inSub.insert(p.first); }
    for (auto &o : ge) for (auto &p : o.t) if (!keep(p.first)) { if (p.second > 0) cnt[p.first].first++; else cnt[p.first].second++; }
    for (auto &c : cnt) { long cost = inSub.count(c.first) ? -1 : (long)(c.second.first + 1) * (c.second.second + 1); if (best < 0 || cost < bc) { best = c.first; bc = cost; } }
    if (best < 0) break;
    elimVar(best);
    if (bottom) return;
    if (ge.size() > 120) { // drop long constraints
      std::stable_sort(ge.begin(), ge.end(), [](const Lin &a, const Lin &b) { return a.t.size() < b.t.size(); });
      ge.resize(120);
    }
  }
}
std::string Poly::str() const {
  std::string s; if (bottom) return "BOTTOM";
  for (auto &p : sub) s += "  " + VARS[p.first].name + "#" + std::to_string(p.first) + " = " + p.second.str() + "\n";
  for (auto &o : ge) s += "  " + o.str() + " >= 0\n";
  return s;
}
std::vector<std::vector<i128>> affineHull(const std::vector<std::vector<Lin>> &vals, int ncols) {
  // unknown vector a (ncols + 1). equations per disjunct per free var.
  std::vector<std::vector<mpq_class>> M;
  int N = ncols + 1;
  for (auto &d : vals) {
    std::set<int> vs; for (auto &l : d) for (auto &p : l.t) vs.insert(p.first);
    for (int v : vs) { std::vector<mpq_class> row(N); for (int c = 0; c < ncols; c++) row[c] = mpq_class(toz(d[c].coef(v))); M.push_back(row); }
    std::vector<mpq_class> row(N); for (int c = 0; c < ncols; c++) row[c] = mpq_class(toz(d[c].k)); row[ncols] = 1; M.push_back(row);
  }
  // row reduce
  std::vector<int> pivcol; size_t r = 0;
  for (int c = 0; c < N && r < M.size(); c++) {
    size_t p = r; while (p < M.size() && M[p][c] == 0) p++;
    if (p == M.size()) continue;
    std::swap(M[p], M[r]);
    mpq_class inv = 1 / M[r][c]; for (int j = c; j < N; j++) M[r][j] *= inv;
    for (size_t i = 0; i < M.size(); i++) if (i != r && M[i][c] != 0) { mpq_class f = M[i][c]; for (int j = c; j < N; j++) M[i][j] -= f * M[r][j]; }
    pivcol.push_back(c); r++;
  }
  std::set<int> pc(pivcol.begin(), pivcol.end());
  std::vector<std::vector<i128>> out;
  for (int f = 0; f < N; f++) if (!pc.count(f)) {
    std::vector<mpq_class> a(N); a[f] = 1;
    for (size_t i = 0; i < pivcol.size(); i++) a[pivcol[i]] = -M[i][f];
    mpz_class l = 1; for (auto &x : a) { mpz_class d = x.get_den(); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), d.get_mpz_t()); }
    std::vector<i128> v(N); bool ok = true;
    for (int j = 0; j < N; j++) { mpq_class y = a[j] * l; mpz_class z = y.get_num(); if (mpz_sizeinbase(z.get_mpz_t(), 2) > 100) { ok = false; break; } bool neg = z < 0; if (neg) z = -z; mpz_class hi = z >> 64, lo = z & mpz_class("18446744073709551615"); i128 t = ((i128)mpz_get_ui(hi.get_mpz_t()) << 64) | (i128)mpz_get_ui(lo.get_mpz_t()); v[j] = neg ? -t : t; }
    if (ok) out.push_back(v);
  }
  return out;
}
