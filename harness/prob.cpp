#include "prob.hpp"
#include "CbcHeuristic.hpp"
#include "CbcModel.hpp"
#include <algorithm>
#include <cfloat>
#include <csignal>
#include <unistd.h>
#include "IpIpoptApplication.hpp"
#include "IpSolveStatistics.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonTNLPSolver.hpp"
using namespace Ipopt;
using std::vector;
using pbt::fmt;

const char *ALGOS[6] = {"B-BB", "B-OA", "B-QG", "B-Hyb", "B-Ecp", "B-iFP"};

static double phi(int k, double u) {
  switch (k) {
  case SQ: return u * u;
  case EXPK: return exp(u);
  case SQRTK: return sqrt(1 + u * u);
  case NLOG: return -log(u);
  case QUART: return u * u * u * u;
  case INV: return 1 / u;
  default: return sin(u);
  }
}
static double phi1(int k, double u) {
  switch (k) {
  case SQ: return 2 * u;
  case EXPK: return exp(u);
  case SQRTK: return u / sqrt(1 + u * u);
  case NLOG: return -1 / u;
  case QUART: return 4 * u * u * u;
  case INV: return -1 / (u * u);
  default: return cos(u);
  }
}
static double phi2(int k, double u) {
  switch (k) {
  case SQ: return 2;
  case EXPK: return exp(u);
  case SQRTK: { double s = 1 + u * u; return 1 / (s * sqrt(s)); }
  case NLOG: return 1 / (u * u);
  case QUART: return 12 * u * u;
  case INV: return 2 / (u * u * u);
  default: return -sin(u);
  }
}
double Func::eval(const double *x) const {
  double r = c0;
  for (int i = 0; i < n; i++) r += a[i] * x[i];
  for (auto &q : t) r += q.w * phi(q.kind, q.u(x));
  return r;
}
void Func::grad(const double *x, double *g) const {
  for (int i = 0; i < n; i++) g[i] = a[i];
  for (auto &q : t) { double d = q.w * phi1(q.kind, q.u(x)); for (auto &e : q.d) g[e.first] += d * e.second; }
}
void Func::hess(const double *x, double w, double *H) const {
  for (auto &q : t) {
    double d = w * q.w * phi2(q.kind, q.u(x));
    for (auto &e : q.d) for (auto &f : q.d) H[e.first * n + f.first] += d * e.second * f.second;
  }
}
vector<int> Func::support() const {
  std::set<int> s;
  for (int i = 0; i < n; i++) if (a[i] != 0) s.insert(i);
  for (auto &q : t) for (auto &e : q.d) s.insert(e.first);
  return vector<int>(s.begin(), s.end());
}
std::set<std::pair<int, int>> Func::hpat() const {
  std::set<std::pair<int, int>> s;
  for (auto &q : t) for (auto &e : q.d) for (auto &f : q.d) if (e.first >= f.first) s.insert({e.first, f.first});
  return s;
}
std::string Func::str() const {
  static const char *nm[] = {"sq", "exp", "sqrt1p", "-log", "pow4", "inv", "sin"};
  std::string s = fmt("%g", c0);
  for (int i = 0; i < n; i++) if (a[i] != 0) s += fmt(" %+g*x%d", a[i], i);
  for (auto &q : t) {
    s += fmt(" %+g*%s(%g", q.w, nm[q.kind], q.b);
    for (auto &e : q.d) s += fmt("%+g*x%d", e.second, e.first);
    s += ")";
  }
  return s;
}
static std::string bnd(double v) { return v >= 1e100 ? "inf" : v <= -1e100 ? "-inf" : fmt("%.10g", v); }
std::string Prob::str() const {
  std::string s = "min " + obj.str();
  for (int j = 0; j < m(); j++) s += fmt("; %s <= %s <= %s", bnd(gl[j]).c_str(), con[j].str().c_str(), bnd(gu[j]).c_str());
  for (int i = 0; i < n; i++) s += fmt("; x%d:%s[%s,%s]@%g", i, type[i] == 0 ? "cont" : type[i] == 1 ? "bin" : "int", bnd(lb[i]).c_str(), bnd(ub[i]).c_str(), x0[i]);
  for (auto &q : sos) { s += fmt("; SOS%d{", q.type); for (size_t k = 0; k < q.idx.size(); k++) s += fmt(" x%d:%g", q.idx[k], q.w[k]); s += fmt("}p%d", q.prio); }
  if (inf < 1e300) s += fmt("; infinity %g", inf);
  if (!prio.empty()) { s += "; prio"; for (int v : prio) s += fmt(" %d", v); }
  if (!dir.empty()) { s += "; dir"; for (int v : dir) s += fmt(" %d", v); }
  if (fortran) s += "; fortran-indices";
  return s;
}
double Prob::violation(const double *x) const {
  double v = 0;
  for (int i = 0; i < n; i++) { v = std::max(v, lb[i] - x[i]); v = std::max(v, x[i] - ub[i]); }
  for (int j = 0; j < m(); j++) { double g = con[j].eval(x); v = std::max(v, gl[j] - g); v = std::max(v, g - gu[j]); if (!(g == g)) v = 1e300; }
  return v;
}

int EvalHook::step() {
  count++;
  if (at) at(count);
  if (sigAt >= 0 && count == sigAt) raise(SIGINT);
  if (limit >= 0 && count > limit) { tripped = true; throw pbt::Failure{"evaluation-limit", fmt("more than %ld function evaluations on a tiny problem", limit)}; }
  if (failFrom >= 0 && count >= failFrom && count < failTo) return mode;
  return 0;
}

int GenTMINLP::fault(const double *x) { int q = hook.step(); return q || !undef || !undef(x) ? q : hook.mode; }
GenTMINLP::GenTMINLP(ProbP pp) : p(pp) {
  int n = p->n;
  for (int j = 0; j < p->m(); j++) for (int i : p->con[j].support()) { jr.push_back(j); jc.push_back(i); }
  if (p->jacPerm) { // a deterministic shuffle of the order in which entries are declared
    size_t k = jr.size();
    uint64_t s = p->jacPerm;
    for (size_t i = k; i > 1; i--) { s = s * 6364136223846793005ull + 1442695040888963407ull; size_t q = (s >> 33) % i; std::swap(jr[i - 1], jr[q]); std::swap(jc[i - 1], jc[q]); }
  }
  std::set<std::pair<int, int>> h = p->obj.hpat();
  for (auto &f : p->con) { auto g = f.hpat(); h.insert(g.begin(), g.end()); }
  for (auto &e : h) { hr.push_back(e.first); hc.push_back(e.second); }
  if (!p->sos.empty()) {
    int k = (int) p->sos.size(), nz = 0; for (auto &s : p->sos) nz += (int) s.idx.size();
    sosi.num = k; sosi.numNz = nz; sosi.types = new char[k]; sosi.priorities = new int[k]; sosi.starts = new int[k + 1];
    sosi.indices = new int[nz]; sosi.weights = new double[nz];
    int q = 0;
    for (int i = 0; i < k; i++) {
      sosi.types[i] = (char) p->sos[i].type; sosi.priorities[i] = p->sos[i].prio; sosi.starts[i] = q;
      for (size_t r = 0; r < p->sos[i].idx.size(); r++) { sosi.indices[q] = p->sos[i].idx[r]; sosi.weights[q++] = p->sos[i].w[r]; }
    }
    sosi.starts[k] = q;
  }
  if (!p->prio.empty() || !p->dir.empty()) {
    br.size = n;
    if (!p->prio.empty()) { br.priorities = new int[n]; for (int i = 0; i < n; i++) br.priorities[i] = p->prio[i]; }
    if (!p->dir.empty()) { br.branchingDirections = new int[n]; for (int i = 0; i < n; i++) br.branchingDirections[i] = p->dir[i]; }
  }
}
// the contract of the callbacks: dimensions as announced; new_x false only at the point of the previous call
void GenTMINLP::seen(const char *fn, int n, const double *x, bool nx) {
  size(fn, n, p->n);
  if (protocol.empty()) for (int i = 0; i < n; i++) if (!std::isfinite(x[i])) { protocol = pbt::fmt("%s called at x%d=%g", fn, i, x[i]); break; }
  if (!nx && protocol.empty() && (int) lastx.size() == n) for (int i = 0; i < n; i++) if (lastx[i] != x[i]) { protocol = pbt::fmt("%s called with new_x=false at a point other than the last one (x%d=%.17g, last %.17g)", fn, i, x[i], lastx[i]); break; }
  if (!nx && protocol.empty() && lastx.empty()) protocol = pbt::fmt("%s called with new_x=false first", fn);
  if (!nx) nFalse++;
  lastx.assign(x, x + n);
}
void GenTMINLP::size(const char *what, long got, long want) { if (got != want && protocol.empty()) protocol = pbt::fmt("%s: %ld, announced %ld", what, got, want); }
bool GenTMINLP::get_variables_types(Index n, VariableType *t) {
  for (int i = 0; i < n; i++) t[i] = p->type[i] == 0 ? CONTINUOUS : p->type[i] == 1 ? BINARY : INTEGER;
  return true;
}
bool GenTMINLP::get_variables_linearity(Index n, TNLP::LinearityType *t) {
  for (int i = 0; i < n; i++) t[i] = TNLP::LINEAR;
  for (auto &q : p->obj.t) for (auto &e : q.d) t[e.first] = TNLP::NON_LINEAR;
  for (auto &f : p->con) for (auto &q : f.t) for (auto &e : q.d) t[e.first] = TNLP::NON_LINEAR;
  return true;
}
bool GenTMINLP::get_constraints_linearity(Index m, TNLP::LinearityType *t) {
  for (int j = 0; j < m; j++) t[j] = p->con[j].linear() ? TNLP::LINEAR : TNLP::NON_LINEAR;
  return true;
}
bool GenTMINLP::get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, TNLP::IndexStyleEnum &s) {
  n = p->n; m = p->m(); nj = (int) jr.size(); nh = (int) hr.size(); s = p->fortran ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE;
  return true;
}
bool GenTMINLP::get_bounds_info(Index n, double *xl, double *xu, Index m, double *gl, double *gu) {
  auto rep = [this](double v) { return v >= 1e300 ? p->inf : v <= -1e300 ? -p->inf : v; };
  for (int i = 0; i < n; i++) { xl[i] = rep(p->lb[i]); xu[i] = rep(p->ub[i]); }
  for (int j = 0; j < m; j++) { gl[j] = rep(p->gl[j]); gu[j] = rep(p->gu[j]); }
  return true;
}
bool GenTMINLP::get_starting_point(Index n, bool ix, double *x, bool iz, double *zl, double *zu, Index m, bool il, double *l) {
  if (ix) for (int i = 0; i < n; i++) x[i] = p->x0[i];
  if (iz) for (int i = 0; i < n; i++) zl[i] = zu[i] = 0;
  if (il) for (int j = 0; j < m; j++) l[j] = 0;
  return true;
}
bool GenTMINLP::eval_f(Index n, const double *x, bool nx, double &v) {
  seen("eval_f", n, x, nx); int q = fault(x); v = p->obj.eval(x); if (q == 1) return false; if (q == 2) v = NAN; return true;
}
bool GenTMINLP::eval_grad_f(Index n, const double *x, bool nx, double *g) {
  seen("eval_grad_f", n, x, nx); int q = fault(x); p->obj.grad(x, g); if (q == 1) return false; return true; // NaN in derivatives corrupts the memory of the linear solver under Ipopt
}
bool GenTMINLP::eval_g(Index n, const double *x, bool nx, Index m, double *g) {
  seen("eval_g", n, x, nx); size("eval_g rows", m, p->m()); int q = fault(x); for (int j = 0; j < m; j++) g[j] = p->con[j].eval(x); if (q == 1) return false; if (q == 2 && m) g[0] = NAN; return true;
}
bool GenTMINLP::eval_jac_g(Index n, const double *x, bool nx, Index m, Index nele, Index *r, Index *c, double *v) {
  int off = p->fortran ? 1 : 0;
  size("eval_jac_g rows", m, p->m()); size("eval_jac_g elements", nele, jr.size());
  if (v == NULL) { for (size_t k = 0; k < jr.size(); k++) { r[k] = jr[k] + off; c[k] = jc[k] + off; } return true; }
  seen("eval_jac_g", n, x, nx); int q = fault(x);
  vector<double> g(n); vector<vector<double>> G(m, vector<double>(n));
  for (int j = 0; j < m; j++) p->con[j].grad(x, G[j].data());
  for (size_t k = 0; k < jr.size(); k++) v[k] = G[jr[k]][jc[k]];
  if (q == 1) return false;
  return true;
}
bool GenTMINLP::eval_h(Index n, const double *x, bool nx, double of, Index m, const double *l, bool, Index nele, Index *r, Index *c, double *v) {
  int off = p->fortran ? 1 : 0;
  size("eval_h rows", m, p->m()); size("eval_h elements", nele, hr.size());
  if (v == NULL) { for (size_t k = 0; k < hr.size(); k++) { r[k] = hr[k] + off; c[k] = hc[k] + off; } return true; }
  seen("eval_h", n, x, nx); int q = fault(x);
  vector<double> H(n * n, 0.);
  if (of != 0) p->obj.hess(x, of, H.data());
  for (int j = 0; j < m; j++) if (l[j] != 0) p->con[j].hess(x, l[j], H.data());
  for (size_t k = 0; k < hr.size(); k++) v[k] = H[hr[k] * n + hc[k]];
  if (q == 1) return false;
  return true;
}
bool GenTMINLP::eval_gi(Index n, const double *x, bool nx, Index i, double &gi) {
  seen("eval_gi", n, x, nx); if (i < 0 || i >= p->m()) size("eval_gi row", i, p->m()); int q = fault(x); gi = p->con[i].eval(x); if (q == 1) return false; if (q == 2) gi = NAN; return true;
}
bool GenTMINLP::eval_grad_gi(Index n, const double *x, bool nx, Index i, Index &nele, Index *c, double *v) {
  int off = p->fortran ? 1 : 0;
  vector<int> s = p->con[i].support();
  nele = (int) s.size();
  if (c) { for (size_t k = 0; k < s.size(); k++) c[k] = s[k] + off; return true; } // structure or values, as for the Jacobian
  seen("eval_grad_gi", n, x, nx); int q = fault(x);
  vector<double> g(n); p->con[i].grad(x, g.data());
  for (size_t k = 0; k < s.size(); k++) v[k] = g[s[k]];
  return q != 1;
}
void GenTMINLP::finalize_solution(Bonmin::TMINLP::SolverReturn s, Index n, const double *x, double v) {
  Fin f; f.status = (int) s; f.hasx = x != NULL; f.obj = v; if (x) f.x.assign(x, x + n); fins.push_back(f);
}

// ---------------------------------------------------------------- generator
static void affineRange(const Prob &p, const Term &t, double &mn, double &mx) {
  mn = mx = t.b;
  for (auto &e : t.d) {
    double l = p.elb[e.first], u = p.eub[e.first];
    mn += e.second > 0 ? e.second * l : e.second * u; mx += e.second > 0 ? e.second * u : e.second * l;
  }
}
Func genFunc(pbt::Case &c, const Prob &p, bool linear, int sign, bool rich) {
  Func f; f.n = p.n; f.a.assign(p.n, 0.);
  int den = c.chance(30) ? 4 : 1;
  for (int i = 0; i < p.n; i++) if (!c.chance(35)) f.a[i] = (double) c.sgn(4 * den) / den;
  f.c0 = c.chance(25) ? c.sgn(5) : 0;
  if (linear) { if (f.support().empty()) f.a[c.draw(p.n)] = 1; return f; }
  int nt = c.range(1, 3);
  for (int k = 0; k < nt; k++) {
    Term t; int sel = (int) c.draw(100);
    t.kind = sel < 45 ? SQ : sel < 58 ? EXPK : sel < 70 ? SQRTK : sel < 80 ? NLOG : sel < 87 ? QUART : sel < 94 ? INV : SQ;
    if (sign == 0 && c.chance(15)) t.kind = SINK;
    std::set<int> used; int nv = 1 + (int) c.draw(std::min(p.n, 3));
    for (int q = 0; q < nv; q++) { int v = (int) c.draw(p.n); if (used.insert(v).second) { int d = c.sgn(3); if (d == 0) d = 1; t.d.push_back({v, (double) d}); } }
    t.w = 0.5 * c.range(1, 6); t.b = c.rat(5, 2);
    double mn, mx; affineRange(p, t, mn, mx);
    if (t.kind == EXPK) { // keep |u| <= 3
      double s = 3.0 / std::max(3.0, std::max(fabs(mn), fabs(mx))); t.b *= s; for (auto &e : t.d) e.second *= s;
    } else if (t.kind == QUART) {
      double s = 3.0 / std::max(3.0, std::max(fabs(mn), fabs(mx))); t.b *= s; for (auto &e : t.d) e.second *= s; t.w *= 0.5;
    } else if (t.kind == NLOG || t.kind == INV) { t.b += 1 - mn; t.w *= (t.kind == INV ? 4 : 2); }
    if (sign < 0 || (sign == 0 && c.chance(50))) t.w = -t.w;
    f.t.push_back(t);
  }
  return f;
}

static void forBox(const vector<double> &lo, const vector<double> &hi, const vector<int> &idx, vector<double> &x, const std::function<void()> &f) {
  for (int i : idx) x[i] = lo[i];
  for (;;) {
    f();
    size_t k = 0;
    for (; k < idx.size(); k++) { int i = idx[k]; if (x[i] + 1 <= hi[i] + 1e-9) { x[i] += 1; break; } x[i] = lo[i]; }
    if (k == idx.size()) break;
  }
}

static vector<int> intIdx(const Prob &p) { vector<int> r; for (int i = 0; i < p.n; i++) if (p.isInt(i)) r.push_back(i); return r; }

// right-hand side between two values the function takes on the box, away from both
static double midRhs(vector<double> v, double q) {
  std::sort(v.begin(), v.end());
  int n = (int) v.size(), at = std::min(n - 1, (int) (q * n));
  for (int d = 0; d < n; d++)
    for (int s : {at + d, at - d}) {
      if (s < 0 || s + 1 >= n) continue;
      double gap = v[s + 1] - v[s];
      if (gap > 0.04 && gap > 4e-3 * (1 + fabs(v[s]))) return 0.5 * (v[s] + v[s + 1]);
    }
  return v.back() + 1;
}

ProbP genProb(pbt::Case &c, const GenOpt &o) {
  ProbP P(new Prob); Prob &p = *P;
  int ni, nc = 0;
  if (o.contOnly) { nc = c.range(1, o.maxN); ni = 0; }
  else if (o.mixed) { nc = c.range(1, 2); ni = c.range(1, std::max(1, o.maxN - nc)); }
  else ni = c.range(1, o.maxN);
  p.n = ni + nc;
  vector<int> kind(p.n, 0);
  // which positions are integer: a generated permutation keeps the two kinds interleaved
  vector<int> pos; for (int i = 0; i < p.n; i++) pos.push_back(i);
  for (int i = p.n - 1; i > 0 && nc; i--) std::swap(pos[i], pos[c.draw(i + 1)]);
  p.type.assign(p.n, 0); p.lb.resize(p.n); p.ub.resize(p.n); p.x0.resize(p.n);
  double pts = 1;
  for (int k = 0; k < p.n; k++) {
    int i = pos[k];
    if (k < ni) {
      double room = o.maxPts / pts;
      if (o.binaryOnly || c.chance(35) || room < 3) { p.type[i] = 1; p.lb[i] = 0; p.ub[i] = 1; if (room < 2) p.ub[i] = p.lb[i] = c.range(0, 1); }
      else {
        p.type[i] = 2; int w = c.range(1, (int) std::min<double>(2 * o.boundInt, room - 1)); int l = c.range(-o.boundInt, o.boundInt); if (o.allowSos) l = c.chance(80) ? 0 : std::abs(l);
        p.lb[i] = l; p.ub[i] = l + w;
        if (c.chance(8)) p.ub[i] = p.lb[i]; // fixed variable
      }
      pts *= p.ub[i] - p.lb[i] + 1;
    } else { p.type[i] = 0; int l = c.range(-4, 2); if (o.allowSos) l = 0; p.lb[i] = l; p.ub[i] = l + c.range(1, 7); }
  }
  p.elb = p.lb; p.eub = p.ub;
  bool lin = c.chance(o.linearOnlyPct);
  bool nonconv = o.allowNonconvex && c.chance(50);
  p.convex = !nonconv;
  p.obj = genFunc(c, p, lin || c.chance(25), nonconv ? 0 : 1);
  int m = c.range(0, o.maxM);
  vector<int> ii = intIdx(p);
  for (int j = 0; j < m; j++) {
    bool l = lin || c.chance(40);
    int sgn = nonconv ? 0 : (l ? 1 : (c.chance(25) ? -1 : 1));
    Func f = genFunc(c, p, l, sgn);
    vector<double> v; vector<double> x(p.n);
    double q = o.wantInfeasible ? 0.01 * c.range(0, 30) : 0.01 * c.range(10, 95);
    if (o.mixed) { // sample the continuous variables on a grid of their bounds and centre
      vector<double> lo = p.elb, hi = p.eub; vector<double> y(p.n);
      forBox(lo, hi, ii, x, [&]() {
        for (int s = 0; s < 3; s++) { for (int i = 0; i < p.n; i++) y[i] = p.isInt(i) ? x[i] : lo[i] + 0.5 * s * (hi[i] - lo[i]); v.push_back(f.eval(y.data())); }
      });
    } else forBox(p.elb, p.eub, ii, x, [&]() { v.push_back(f.eval(x.data())); });
    double inf = DBL_MAX;
    double lo = -inf, hi = inf;
    bool intCoef = true; for (double a : f.a) if (a != floor(a)) intCoef = false;
    int form = (int) c.draw(10);
    // at most one equality, and only on all variables: with as many equalities as free variables Ipopt ignores the objective (K05)
    bool fullSup = true; for (int i = 0; i < p.n; i++) if (i >= (int) f.a.size() || f.a[i] == 0) fullSup = false;
    bool haveEq = false; for (size_t k = 0; k < p.gl.size(); k++) if (p.gl[k] == p.gu[k]) haveEq = true;
    if (l && o.allowEq && form == 9 && intCoef && !o.mixed && fullSup && !haveEq) { double r = v[c.draw(v.size())]; lo = hi = r; }
    else if (l && form >= 7) { // ranged
      double a = midRhs(v, q * 0.4), b = midRhs(v, 0.4 + q * 0.6); if (a > b) std::swap(a, b); if (b - a < 0.05) b = a + 1; lo = a; hi = b;
    }
    else if ((l && form >= 4) || sgn < 0) lo = -midRhs([&]() { vector<double> w = v; for (double &z : w) z = -z; return w; }(), q);
    else if (sgn == 0 && form >= 5) lo = midRhs(v, 1 - q);
    else hi = midRhs(v, q);
    p.con.push_back(f); p.gl.push_back(lo); p.gu.push_back(hi);
  }
  if (o.allowInf && !nonconv && c.chance(12)) {
    // infinite bounds with an objective that makes the enumeration box sufficient
    p.obj = Func(); p.obj.n = p.n; p.obj.a.assign(p.n, 0.);
    for (int i = 0; i < p.n; i++) { Term t; t.kind = SQ; t.w = 1; double ctr = 0.5 * (p.elb[i] + p.eub[i]) + 0.25 * c.sgn(2); t.b = -ctr; t.d.push_back({i, 1.}); p.obj.t.push_back(t); }
    p.boxR = 1;
    for (int i = 0; i < p.n; i++) if (p.type[i] == 2) { if (c.chance(70)) p.lb[i] = -DBL_MAX; if (c.chance(70) && (o.allowFree || p.lb[i] > -DBL_MAX)) p.ub[i] = DBL_MAX; }
    // terms with a restricted domain are not allowed together with infinite bounds
    for (size_t j = 0; j < p.con.size();) {
      bool dom = false; for (auto &t : p.con[j].t) if (t.kind == NLOG || t.kind == INV || t.kind == EXPK) dom = true;
      if (dom) { p.con.erase(p.con.begin() + j); p.gl.erase(p.gl.begin() + j); p.gu.erase(p.gu.begin() + j); } else j++;
    }
    for (int i = 0; i < p.n; i++) if (p.type[i] == 2) { p.elb[i] = std::max(p.lb[i], p.elb[i] - 2); p.eub[i] = std::min(p.ub[i], p.eub[i] + 2); }
  }
  if (o.infRep && c.chance(40)) p.inf = c.pick(vector<double>{1e30, 1e20, 2e19});
  for (int i = 0; i < p.n; i++) { double l = p.elb[i], u = p.eub[i]; p.x0[i] = l + (u - l) * 0.125 * (double) c.range(0, 8); }
  p.fortran = c.chance(40);
  p.jacPerm = c.chance(40) ? c.range(1, 1000) : 0;
  if (c.chance(15)) { for (int i = 0; i < p.n; i++) p.prio.push_back(c.range(1, 5)); if (c.chance(50)) for (int i = 0; i < p.n; i++) p.dir.push_back(c.range(-1, 1)); }
  if (o.allowSos) {
    int k = c.range(1, 3); bool overlap = c.chance(40);
    for (int s = 0; s < k; s++) {
      Sos q; q.type = 1; q.prio = c.range(1, 10);
      vector<int> cand; for (int i = 0; i < p.n; i++) { bool used = false; if (!overlap) for (auto &t : p.sos) for (int j : t.idx) if (j == i) used = true; if (!used && p.type[i] != 0 && p.lb[i] == 0 && p.ub[i] > p.lb[i]) cand.push_back(i); }
      int take = c.chance(50) ? 90 : 60; for (int i : cand) if (c.chance(take)) q.idx.push_back(i);
      if (q.idx.size() < 2) continue;
      for (size_t r = 0; r < q.idx.size(); r++) q.w.push_back((double) r + 1 + (c.chance(30) ? 0.5 : 0));
      p.sos.push_back(q);
    }
  }
  return P;
}

static bool sosOk(const Prob &p, const double *x, double tol) {
  for (auto &s : p.sos) { int nz = 0; for (int i : s.idx) if (fabs(x[i]) > tol) nz++; if (nz > 1) return false; }
  return true;
}

Oracle bruteForce(const Prob &p) {
  Oracle r; vector<int> ii = intIdx(p); if ((int) ii.size() != p.n) return r;
  vector<double> x(p.n);
  forBox(p.elb, p.eub, ii, x, [&]() {
    r.points++;
    double v = p.violation(x.data());
    r.margin = std::min(r.margin, v > 1e-9 ? v : 1e300);
    if (v > 1e-9 || !sosOk(p, x.data(), 1e-9)) return;
    r.feas++;
    double f = p.obj.eval(x.data());
    if (!r.feasible) r.runnerUp = 1e300; else r.runnerUp = std::min(r.runnerUp, std::max(f, r.best));
    if (!r.feasible || f < r.best) { if (r.feasible && f < r.best - 1e-3) r.second = std::min(r.second, r.best); r.feasible = true; r.best = f; r.x = x; }
    else if (f > r.best + 1e-3) r.second = std::min(r.second, f);
  });
  r.decided = true;
  if (r.margin < 1e-3) r.decided = false; // a point that is infeasible by next to nothing
  if (p.boxR > 0) { // points outside the box cost more than (half width of the box)^2
    double R = 1e300; for (int i = 0; i < p.n; i++) {
      double ctr = -p.obj.t[i].b;
      if (p.ub[i] > p.eub[i]) R = std::min(R, p.eub[i] + 1 - ctr); if (p.lb[i] < p.elb[i]) R = std::min(R, ctr - (p.elb[i] - 1)); }
    if (!r.feasible ? R < 1e299 : r.best > R * R - 1e-3) r.decided = false;
  }
  return r;
}

// ------------------------------------------------------------ reference NLP
namespace {
class RefNlp : public TNLP {
public:
  const Prob &p; vector<double> lb, ub; bool phase1, fromX0 = false; int st = -1; double val = 0; vector<double> x;
  RefNlp(const Prob &q, const vector<double> &l, const vector<double> &u, bool ph) : p(q), lb(l), ub(u), phase1(ph) {}
  int N() const { return p.n + (phase1 ? 1 : 0); }
  bool get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, IndexStyleEnum &s) {
    n = N(); nj = 0; m = 0;
    for (int j = 0; j < p.m(); j++) { if (phase1 && p.gl[j] > -1e100 && p.gu[j] < 1e100) { m += 2; nj += 2 * N(); } else { m++; nj += N(); } }
    nh = n * (n + 1) / 2; s = C_STYLE; return true;
  }
  // rows: (constraint, side) with side 0 both, 1 upper, 2 lower
  vector<std::pair<int, int>> rows() const {
    vector<std::pair<int, int>> r;
    for (int j = 0; j < p.m(); j++) { if (!phase1) r.push_back({j, 0}); else { if (p.gu[j] < 1e100) r.push_back({j, 1}); if (p.gl[j] > -1e100) r.push_back({j, 2}); if (p.gu[j] >= 1e100 && p.gl[j] <= -1e100) r.push_back({j, 0}); } }
    return r;
  }
  bool get_bounds_info(Index n, double *xl, double *xu, Index m, double *gl, double *gu) {
    for (int i = 0; i < p.n; i++) { xl[i] = lb[i]; xu[i] = ub[i]; }
    if (phase1) { xl[p.n] = -10; xu[p.n] = 2e19; }
    auto r = rows();
    for (size_t k = 0; k < r.size(); k++) { int j = r[k].first; gl[k] = r[k].second == 1 ? -2e19 : std::max(-2e19, p.gl[j]); gu[k] = r[k].second == 2 ? 2e19 : std::min(2e19, p.gu[j]); }
    return true;
  }
  bool get_starting_point(Index n, bool, double *x, bool, double *, double *, Index, bool, double *) {
    for (int i = 0; i < p.n; i++) x[i] = std::max(std::max(lb[i], -10.), std::min(ub[i], 0.5 * (std::max(lb[i], -10.) + std::min(ub[i], 10.)))); 
    if (fromX0) for (int i = 0; i < p.n; i++) x[i] = p.x0[i];
    if (phase1) x[p.n] = std::max(1., p.violation(x) + 1);
    return true;
  }
  bool eval_f(Index n, const double *x, bool, double &v) { v = phase1 ? x[p.n] : p.obj.eval(x); return true; }
  bool eval_grad_f(Index n, const double *x, bool, double *g) { if (phase1) { for (int i = 0; i < p.n; i++) g[i] = 0; g[p.n] = 1; } else p.obj.grad(x, g); return true; }
  bool eval_g(Index n, const double *x, bool, Index m, double *g) {
    auto r = rows();
    for (size_t k = 0; k < r.size(); k++) { g[k] = p.con[r[k].first].eval(x); if (r[k].second == 1) g[k] -= x[p.n]; if (r[k].second == 2) g[k] += x[p.n]; }
    return true;
  }
  bool eval_jac_g(Index n, const double *x, bool nx, Index m, Index, Index *ir, Index *jc, double *v) {
    auto r = rows(); int q = 0; vector<double> g(p.n);
    for (size_t k = 0; k < r.size(); k++) {
      if (v) p.con[r[k].first].grad(x, g.data());
      for (int i = 0; i < N(); i++, q++) {
        if (!v) { ir[q] = (int) k; jc[q] = i; }
        else v[q] = i < p.n ? g[i] : (r[k].second == 1 ? -1. : r[k].second == 2 ? 1. : 0.);
      }
    }
    return true;
  }
  bool eval_h(Index n, const double *x, bool nx, double of, Index m, const double *l, bool, Index, Index *ir, Index *jc, double *v) {
    int q = 0; vector<double> H;
    if (v) {
      H.assign(p.n * p.n, 0.); if (!phase1) p.obj.hess(x, of, H.data());
      auto r = rows(); for (size_t k = 0; k < r.size(); k++) p.con[r[k].first].hess(x, l[k], H.data());
    }
    for (int i = 0; i < N(); i++) for (int j = 0; j <= i; j++, q++) { if (!v) { ir[q] = i; jc[q] = j; } else v[q] = i < p.n && j < p.n ? H[i * p.n + j] : 0; }
    return true;
  }
  void finalize_solution(SolverReturn s, Index n, const double *xx, const double *, const double *, Index, const double *, const double *, double v, const IpoptData *, IpoptCalculatedQuantities *) {
    st = (int) s; val = v; x.assign(xx, xx + n);
  }
};
} // namespace

static ApplicationReturnStatus runIpopt(SmartPtr<RefNlp> r) {
  SmartPtr<IpoptApplication> app = new IpoptApplication(false);
  app->Options()->SetIntegerValue("print_level", 0); app->Options()->SetStringValue("sb", "yes");
  app->Options()->SetNumericValue("tol", 1e-9); app->Options()->SetIntegerValue("max_iter", 500);
  app->Options()->SetNumericValue("bound_relax_factor", 0);
  app->Initialize("");
  return app->OptimizeTNLP(GetRawPtr(r));
}

bool ipoptSaysInfeasible(const Prob &p) {
  // Ipopt as Bonmin sets it up by default, and as it is
  for (int k = 0; k < 2; k++) {
    SmartPtr<RefNlp> r = new RefNlp(p, p.lb, p.ub, false); r->fromX0 = true;
    SmartPtr<IpoptApplication> app = new IpoptApplication(false);
    app->Options()->SetIntegerValue("print_level", 0); app->Options()->SetStringValue("sb", "yes");
    if (!k) {
      app->Options()->SetNumericValue("gamma_phi", 1e-8); app->Options()->SetNumericValue("gamma_theta", 1e-4); app->Options()->SetNumericValue("required_infeasibility_reduction", 0.1);
      app->Options()->SetStringValue("expect_infeasible_problem", "yes"); app->Options()->SetStringValue("mu_strategy", "adaptive"); app->Options()->SetStringValue("mu_oracle", "probing");
    }
    app->Initialize("");
    if (app->OptimizeTNLP(GetRawPtr(r)) == Infeasible_Problem_Detected) return true;
  }
  return false;
}
int refNlp(const Prob &p, const vector<double> &lb, const vector<double> &ub, double &val, vector<double> &x) {
  bool allFixed = true; for (int i = 0; i < p.n; i++) if (ub[i] - lb[i] > 1e-12) allFixed = false;
  if (allFixed) { x = lb; val = p.obj.eval(x.data()); double v = p.violation(x.data()); return v <= 1e-9 ? 0 : v > 1e-3 ? 1 : 2; }
  if (p.m()) {
    SmartPtr<RefNlp> r = new RefNlp(p, lb, ub, true);
    ApplicationReturnStatus s = runIpopt(r);
    if (s != Solve_Succeeded && s != Solved_To_Acceptable_Level) return 2;
    double z = r->val; bool eq = false; for (int j = 0; j < p.m(); j++) if (p.gl[j] == p.gu[j]) eq = true;
    if (z > 2e-3) return 1;
    if (!eq && z > -2e-3) return 2;
    if (eq && z > 1e-7) return 2;
  }
  SmartPtr<RefNlp> r = new RefNlp(p, lb, ub, false);
  ApplicationReturnStatus s = runIpopt(r);
  if (s != Solve_Succeeded && s != Solved_To_Acceptable_Level) return 2;
  x = r->x; val = r->val;
  return 0;
}

Oracle mixedOracle(const Prob &p) {
  Oracle r; vector<int> ii = intIdx(p); vector<double> x(p.n, 0.);
  bool und = false;
  forBox(p.elb, p.eub, ii, x, [&]() {
    if (und) return;
    r.points++;
    if (!sosOk(p, x.data(), 1e-9)) return; // sets only contain integer variables
    vector<double> lo = p.lb, hi = p.ub, s; for (int i : ii) lo[i] = hi[i] = x[i];
    double v; int st = refNlp(p, lo, hi, v, s);
    if (st == 2) { und = true; return; }
    if (st == 1) return;
    r.feas++;
    if (!r.feasible || v < r.best) { r.feasible = true; r.best = v; r.x = s; }
  });
  r.decided = !und;
  return r;
}

// --------------------------------------------------------------- Bonmin runs
std::string Opts::str() const { std::string s; for (auto &k : o) s += k.first + "=" + k.second + " "; return s; }
const char *statusName(int s) { static const char *n[] = {"SUCCESS", "INFEASIBLE", "CONTINUOUS_UNBOUNDED", "LIMIT_EXCEEDED", "USER_INTERRUPT", "MINLP_ERROR"}; return s >= 0 && s < 6 ? n[s] : "?"; }

// records what the heuristic it wraps returns
class SpyHeuristic : public CbcHeuristic {
public:
  CbcHeuristic *in; std::vector<HeurRec> *rec; std::string id;
  SpyHeuristic(CbcHeuristic *h, std::vector<HeurRec> *r, const std::string &s) : CbcHeuristic(*h), in(h), rec(r), id(s) {}
  SpyHeuristic(const SpyHeuristic &o) : CbcHeuristic(o), in(o.in->clone()), rec(o.rec), id(o.id) {}
  ~SpyHeuristic() { delete in; }
  CbcHeuristic *clone() const { return new SpyHeuristic(*this); }
  void setModel(CbcModel *m) { CbcHeuristic::setModel(m); in->setModel(m); }
  void resetModel(CbcModel *m) { in->resetModel(m); }
  bool shouldHeurRun(int whereFrom) { return in->shouldHeurRun(whereFrom); }
  void validate() { in->validate(); }
  int solution(double &v, double *x) {
    double b = v; int r = in->solution(v, x);
    if (r == 1) { int n = model_->getNumCols(); rec->push_back({id, b, v, std::vector<double>(x, x + n)}); }
    return r;
  }
};
Outcome solveBonmin(ProbP p, const Opts &o, const SolveCtl *ctl) {
  Outcome r;
  SmartPtr<GenTMINLP> t = new GenTMINLP(p);
  if (ctl && ctl->prep) ctl->prep(GetRawPtr(t));
  if (ctl && ctl->evalLimit >= 0) t->hook.limit = ctl->evalLimit;
  try {
    Bonmin::BonminSetup b;
    b.initializeOptionsAndJournalist();
    std::string s;
    if (const char *e = getenv("PBT_EXTRA")) for (std::string t = e; !t.empty();) { size_t q = t.find(';'); s += t.substr(0, q) + "\n"; if (q == std::string::npos) break; t = t.substr(q + 1); } // debugging aid
    s += "print_level 0\nsb yes\nbonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\n";
    for (auto &k : o.o) s += k.first + " " + k.second + "\n";
    b.readOptionsString(s);
    b.initialize(GetRawPtr(t));
    r.initEvals = t->hook.count;
    if (ctl && ctl->heur) for (auto &h : b.heuristics()) h.heuristic = new SpyHeuristic(h.heuristic, ctl->heur, h.id);
    if (ctl && ctl->arm) ctl->arm(GetRawPtr(t));
    // Cbc is not exception safe: after an error the search object cannot be destroyed (see DESIGN.md)
    std::unique_ptr<Bonmin::Bab> own(new Bonmin::Bab); Bonmin::Bab &bb = *own;
    try { bb(b); } catch (...) { own.release(); throw; }
    r.status = -1;
    if (!t->fins.empty()) r.status = t->fins.back().status;
    r.hasSol = bb.bestSolution() != NULL;
    if (r.hasSol) { r.x.assign(bb.bestSolution(), bb.bestSolution() + p->n); }
    r.obj = bb.bestObj(); r.bound = bb.bestBound(); r.nodes = bb.numNodes(); r.iters = bb.iterationCount();
    r.contRel = bb.continuousRelaxation(); r.mip = (int) bb.mipStatus();
  }
  catch (Bonmin::TNLPSolver::UnsolvedError *E) { r.threw = true; r.exc = "UnsolvedError"; }
  catch (Bonmin::OsiTMINLPInterface::SimpleError &E) { r.threw = true; r.exc = "SimpleError:" + E.className() + "::" + E.methodName() + ":" + E.message(); }
  catch (CoinError &E) { r.threw = true; r.exc = "CoinError:" + E.className() + "::" + E.methodName() + ":" + E.message(); }
  catch (Ipopt::IpoptException &E) { r.threw = true; r.exc = "Ipopt:" + E.Message(); }
  r.fins = t->fins; r.evals = t->hook.count; r.protocol = t->protocol; r.nFalse = t->nFalse;
  return r;
}

void checkReported(pbt::Case &c, const Prob &p, const Outcome &r, double ts) {
  if (r.threw) return;
  // heuristics that run a search of their own call finalize_solution too: the last call is the answer
  if (r.fins.empty()) c.fail("finalize-count", "finalize_solution was not called");
  const Fin &f = r.fins.back();
  if (r.hasSol != f.hasx) c.fail("finalize-mismatch", fmt("solver has solution: %d, finalize_solution got one: %d (status %s)", r.hasSol, f.hasx, statusName(f.status)));
  if (f.status == S_SUCCESS && !f.hasx) c.fail("success-without-solution", "status SUCCESS without a point");
  if (f.status == S_INFEASIBLE && f.hasx) c.fail("infeasible-with-solution", "status INFEASIBLE with a point");
  if (r.mip >= 0) { // the solver object's own view of the outcome
    static const char *MS[] = {"FeasibleOptimal", "ProvenInfeasible", "Feasible", "UnboundedOrInfeasible", "NoSolutionKnown"};
    int want = f.status == S_SUCCESS ? Bonmin::Bab::FeasibleOptimal : f.status == S_INFEASIBLE ? Bonmin::Bab::ProvenInfeasible : f.status == S_LIMIT || f.status == S_INTERRUPT ? (f.hasx ? Bonmin::Bab::Feasible : Bonmin::Bab::NoSolutionKnown) : r.mip;
    if (r.mip != want) c.fail("mip-status", fmt("mipStatus() is %s, the status reported %s, solution: %d", r.mip < 5 ? MS[r.mip] : "?", statusName(f.status), (int) f.hasx));
  }
  if (!f.hasx) return;
  for (int i = 0; i < p.n; i++) {
    if (!(fabs(f.x[i]) < 1e100)) c.fail("solution-not-finite", fmt("x%d=%g", i, f.x[i]));
    if (f.x[i] != r.x[i]) c.fail("finalize-mismatch", fmt("x%d: solver %.12g finalize %.12g", i, r.x[i], f.x[i]));
    if (p.isInt(i) && fabs(f.x[i] - floor(f.x[i] + 0.5)) > 2e-6 * ts) c.fail("not-integer", fmt("integer variable x%d=%.10g", i, f.x[i]));
  }
  double sc = 1; for (int j = 0; j < p.m(); j++) { double b = fabs(p.gl[j]) < 1e100 ? fabs(p.gl[j]) : 0; double u = fabs(p.gu[j]) < 1e100 ? fabs(p.gu[j]) : 0; sc = std::max(sc, std::max(b, u)); }
  double v = p.violation(f.x.data());
  if (v > 1e-5 * ts * sc) c.fail("infeasible-solution", fmt("reported point violates a bound or constraint by %g", v));
  if (!sosOk(p, f.x.data(), 1e-5)) c.fail("sos-violated", "two nonzero members in an SOS1");
  double o = p.obj.eval(f.x.data());
  double ot = 1e-5 * ts * (1 + fabs(o));
  if (fabs(o - f.obj) > ot) c.fail("objective-mismatch", fmt("finalize_solution objective %.12g, f(x)=%.12g", f.obj, o));
  if (fabs(o - r.obj) > ot) c.fail("objective-mismatch", fmt("bestObj %.12g, f(x)=%.12g", r.obj, o));
}
