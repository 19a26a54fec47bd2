// The layer between the user's problem and the algorithms: relaxations and
// cuts, the solver interface seen as a state machine, the problem adapters.
#include <climits>
#include "prob.hpp"
#include "BonBonminSetup.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "BonTNLP2FPNLP.hpp"
#include "BonTMINLPLinObj.hpp"
#include "BonTMINLP2Quad.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"
#include <cfloat>
using namespace pbt;
using namespace Bonmin;
using Ipopt::SmartPtr; using Ipopt::TNLP; using Ipopt::Index;
template <class T> using Vec = std::vector<T>;

static const double BIG = 1e18;
struct Ctx {
  BonminSetup b; SmartPtr<GenTMINLP> t; OsiTMINLPInterface *nlp = NULL;
  Ctx(ProbP p, const std::string &extra) {
    t = new GenTMINLP(p);
    b.initializeOptionsAndJournalist();
    b.readOptionsString("print_level 0\nsb yes\nbonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.oa_log_level 0\nbonmin.algorithm B-BB\n" + extra);
    b.initialize(GetRawPtr(t));
    nlp = b.nonlinearSolver();
  }
};
// run body; a solver exception that is part of the API makes the case inconclusive
template <class F> static void guarded(Case &c, F f) {
  try { f(); }
  catch (TNLPSolver::UnsolvedError *E) { delete E; c.inconclusive("UnsolvedError"); }
  catch (OsiTMINLPInterface::SimpleError &E) { c.fail("exception", "SimpleError " + E.methodName() + ": " + E.message()); }
  catch (CoinError &E) { c.fail("exception", "CoinError " + E.methodName() + ": " + E.message()); }
}
static double unif(Case &c, double l, double u) { return l + (u - l) * (double) c.draw(1025) / 1024.; }
static Vec<double> pointIn(Case &c, const Prob &p) {
  Vec<double> x(p.n);
  for (int i = 0; i < p.n; i++) { x[i] = unif(c, p.elb[i], p.eub[i]); if (c.chance(20)) x[i] = p.elb[i]; else if (c.chance(20)) x[i] = p.eub[i]; }
  return x;
}
// feasible points of the continuous relaxation: random, integer, and pulled towards a feasible one
static Vec<Vec<double>> feasiblePoints(Case &c, const Prob &p, int want) {
  Vec<Vec<double>> r;
  double v; Vec<double> s; int st = refNlp(p, p.lb, p.ub, v, s);
  if (st == 0) r.push_back(s);
  for (int k = 0; k < 6 * want && (int) r.size() < want; k++) {
    Vec<double> y = pointIn(c, p);
    if (k % 3 == 1) for (double &z : y) z = floor(z + 0.5);
    if (p.violation(y.data()) > 0 && st == 0) { // move along the segment to the known feasible point: convex set
      double lo = 0, hi = 1; Vec<double> w(p.n);
      for (int q = 0; q < 40; q++) { double m = 0.5 * (lo + hi); for (int i = 0; i < p.n; i++) w[i] = s[i] + m * (y[i] - s[i]); if (p.violation(w.data()) <= 0) lo = m; else hi = m; }
      for (int i = 0; i < p.n; i++) w[i] = s[i] + lo * (y[i] - s[i]);
      y = w;
    }
    if (p.violation(y.data()) <= 1e-9) r.push_back(y);
  }
  return r;
}
struct Lin { double lb, ub; Vec<double> a; double at(const double *z) const { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * z[i]; return s; }
  double viol(const double *z) const { double v = at(z); return std::max(lb > -BIG ? lb - v : -1e300, ub < BIG ? v - ub : -1e300); }
  double scale(const double *z) const { double s = 1; for (size_t i = 0; i < a.size(); i++) s += fabs(a[i] * z[i]); return s; } };
static Vec<Lin> linCuts(const OsiCuts &cs, int n1) {
  Vec<Lin> r;
  for (int k = 0; k < cs.sizeRowCuts(); k++) {
    const OsiRowCut &q = cs.rowCut(k); Lin l; l.lb = q.lb(); l.ub = q.ub(); l.a.assign(n1, 0.);
    for (int e = 0; e < q.row().getNumElements(); e++) l.a.at(q.row().getIndices()[e]) += q.row().getElements()[e];
    r.push_back(l);
  }
  return r;
}
static void validOn(Case &c, const Prob &p, const Vec<Lin> &rows, const Vec<Vec<double>> &Y, const char *tag, const char *what) {
  for (size_t k = 0; k < rows.size(); k++)
    for (auto &y : Y) {
      Vec<double> z = y; z.push_back(p.obj.eval(y.data()));
      double v = rows[k].viol(z.data());
      if (v > 2e-6 * rows[k].scale(z.data())) c.fail(tag, fmt("%s %zu cuts off a feasible point by %g", what, k, v));
    }
}

// ---- P09: outer approximation cuts and the linear relaxation
static void cutsAndRelaxation(Case &c) {
  GenOpt g; g.mixed = c.chance(50); g.maxN = 5; g.maxM = 4; g.allowInf = true; g.allowFree = true; g.linearOnlyPct = 5;
  if (g.mixed) g.maxPts = 60;
  ProbP p = genProb(c, g);
  // a variable with wide bounds and coefficients so small that they are cleaned away
  bool tiny = c.chance(25), ranged1 = c.chance(15);
  if (tiny) {
    double B[2] = {-c.pick(Vec<double>{0, 1e5, 1e7, -2e5}), c.pick(Vec<double>{1e7, 1e6, 1e5, 3e5})};
    if (c.chance(30)) { std::swap(B[0], B[1]); B[0] = -B[0]; B[1] = -B[1]; }
    if (B[0] > B[1]) std::swap(B[0], B[1]);
    p->n++; p->type.push_back(0); p->lb.push_back(B[0]); p->ub.push_back(B[1]); p->elb.push_back(B[0]); p->eub.push_back(B[1]); p->x0.push_back(std::min(std::max(0., B[0]), B[1]));
    auto ext = [&](Func &f) { f.n = p->n; f.a.push_back(f.linear() || c.chance(30) ? 0. : c.sgn(9) * c.pick(Vec<double>{1e-9, 1e-10, 1e-8})); };
    if (!p->prio.empty()) p->prio.push_back(1); if (!p->dir.empty()) p->dir.push_back(0);
    if (p->m()) ext(p->obj); else { p->obj.n = p->n; p->obj.a.push_back(0.); } for (auto &f : p->con) ext(f);
    c.label("tiny");
  }
  if (ranged1) for (int j = 0; j < p->m(); j++) if (!p->con[j].linear()) { // a bound on the other side that never binds
    if (p->gl[j] <= -BIG) p->gl[j] = -1e9; else if (p->gu[j] >= BIG) p->gu[j] = 1e9;
    c.label("two-sided");
  }
  c.note("%s", p->str().c_str());
  static const char *CS[] = {"none", "sglobal", "uglobal-slocal", "sglobal-slocal"};
  int cs = c.chance(25) && !tiny && !ranged1 ? c.range(1, 3) : 0; // strengthened cuts are only as exact as an NLP solve
  std::string extra; if (cs) extra = std::string("bonmin.cut_strengthening_type ") + CS[cs] + "\n";
  const double relax = c.chance(20) ? c.pick(Vec<double>{1e-3, 0.1, 0.03}) : 0; // right hand sides are loosened by that share of them
  if (relax) { extra += fmt("bonmin.oa_rhs_relax %g\n", relax); c.label("rhs-relaxed"); }
  auto tol = [relax](const Lin &l, const double *z) { double b = 1; if (l.lb > -BIG) b = std::max(b, fabs(l.lb)); if (l.ub < BIG) b = std::max(b, fabs(l.ub)); return 1e-5 * l.scale(z) + 1.5 * relax * b; };
  const bool disj = false; // disjunctive cuts assume a binary disjunction (DESIGN.md)
  c.note(" | %s", extra.c_str());
  guarded(c, [&]() {
    Ctx x(p, extra); int n = p->n;
    x.nlp->initialSolve();
    if (!x.nlp->isProvenOptimal()) c.discard();
    Vec<Vec<double>> Y = feasiblePoints(c, *p, 12);
    if (Y.empty()) c.discard();
    // 1. cuts at a point
    Vec<double> pt = c.chance(60) ? pointIn(c, *p) : Vec<double>(x.nlp->getColSolution(), x.nlp->getColSolution() + n);
    if (tiny && c.chance(80)) { // linearize at a feasible point, often on the boundary, and look at its neighbours
      pt = Y[c.draw(Y.size())]; Vec<double> mid(n, 0.);
      for (auto &y : Y) for (int i = 0; i < n; i++) mid[i] += y[i] / Y.size();
      for (int k = 0; k < 2; k++) {
        Vec<double> a = mid, b = pt, w(n); a[n - 1] = b[n - 1] = k ? p->ub[n - 1] : p->lb[n - 1];
        if (p->violation(b.data()) <= 0) { Y.push_back(b); continue; }
        if (p->violation(a.data()) > 0) continue;
        double lo = 0, hi = 1;
        for (int q = 0; q < 50; q++) { double m = 0.5 * (lo + hi); for (int i = 0; i < n; i++) w[i] = a[i] + m * (b[i] - a[i]); if (p->violation(w.data()) <= 0) lo = m; else hi = m; }
        for (int i = 0; i < n; i++) w[i] = a[i] + lo * (b[i] - a[i]);
        Y.push_back(w);
      }
    }
    // at a node: bounds are tightened, cuts that claim to be global are still valid for the whole problem
    bool node = !tiny && !ranged1 && c.chance(30); Vec<double> nl0 = p->lb, nu0 = p->ub;
    if (node) {
      c.label("node");
      for (int i = 0; i < n; i++) if (c.chance(50) && nl0[i] > -BIG && nu0[i] < BIG) {
        double b = p->isInt(i) ? (double) c.range((int) nl0[i], (int) nu0[i]) : unif(c, nl0[i], nu0[i]);
        if (c.chance(50)) { nl0[i] = b; x.nlp->setColLower(i, b); } else { nu0[i] = b; x.nlp->setColUpper(i, b); }
        pt[i] = std::min(std::max(pt[i], nl0[i]), nu0[i]);
      }
      if (c.chance(60)) x.nlp->resolve();
    }
    double f = p->obj.eval(pt.data());
    int getObj = c.range(0, 2); bool global = c.chance(50); bool useX2 = c.chance(30); double theta = useX2 ? c.pick(Vec<double>{0, 0.1, 1}) : 0;
    Vec<double> x2 = pointIn(c, *p); x2.push_back(unif(c, f - 5, f + 5));
    OsiCuts cuts;
    x.nlp->getOuterApproximation(cuts, pt.data(), getObj, useX2 ? x2.data() : NULL, theta, global);
    Vec<Lin> L = linCuts(cuts, n + 1);
    c.label("oa"); if (useX2) c.label("only-violated"); if (cs) c.label(CS[cs]);
    Vec<Vec<double>> YC; // disjunctive cuts are valid for integer points only
    for (auto &y : Y) { bool in = true; for (int i = 0; i < n; i++) if (p->isInt(i) && y[i] != floor(y[i])) in = false; if (in || !disj) YC.push_back(y); }
    Vec<Vec<double>> YN; for (auto &y : YC) { bool in = true; for (int i = 0; i < n; i++) if (y[i] < nl0[i] || y[i] > nu0[i]) in = false; if (in) YN.push_back(y); }
    for (size_t k = 0; k < L.size(); k++) validOn(c, *p, Vec<Lin>{L[k]}, cuts.rowCut(k).globallyValid() ? YC : YN, "cut-not-valid", cuts.rowCut(k).globallyValid() ? "global outer approximation cut" : "outer approximation cut");
    if (node) { for (int i = 0; i < n; i++) { x.nlp->setColLower(i, p->lb[i]); x.nlp->setColUpper(i, p->ub[i]); } x.nlp->resolve(); if (!x.nlp->isProvenOptimal()) c.discard(); }
    int nl = 0; for (auto &q : p->con) if (!q.linear()) nl++;
    bool obj = getObj == 2 || (getObj == 1 && !p->obj.linear());
    if (!cs) for (auto &l : L) if (l.lb > -BIG && l.ub < BIG) c.fail("cut-two-sided", "a cut of a convex inequality bounds both sides");
    if (!useX2 && !cs) c.check((int) L.size() == nl + (obj ? 1 : 0), "cut-count", fmt("%zu cuts for %d nonlinear constraints, objective %d", L.size(), nl, obj));
    if (useX2 && !cs) for (auto &l : L) c.check(l.viol(x2.data()) >= theta - 1e-9 - (relax ? tol(l, x2.data()) : 0) || theta == 0, "cut-not-violated", fmt("a cut violated by %g only although %g was asked for", l.viol(x2.data()), theta));
    // tight at the linearization point: a violated constraint gives a cut violated as much
    Vec<double> z = pt; z.push_back(f - 1);
    bool someViol = false;
    for (int j = 0; j < p->m(); j++) if (!p->con[j].linear()) {
      double gv = p->con[j].eval(pt.data()), v = std::max(p->gl[j] - gv, gv - p->gu[j]);
      if (v < 1e-3 || tiny || ranged1) continue;
      someViol = true;
      // the cut of row j, violated at pt by v
      bool found = false;
      for (auto &l : L) if (fabs(l.a[n]) < 1e-12 && l.viol(z.data()) > v - tol(l, z.data())) found = true;
      if (!found && useX2) { // allowed only when the cut is not violated enough by x2
        Vec<double> gr(n); p->con[j].grad(pt.data(), gr.data()); double lin = gv; for (int i = 0; i < n; i++) lin += gr[i] * (x2[i] - pt[i]);
        double vx = std::max(p->gl[j] - lin, lin - p->gu[j]); if (relax || vx < theta + 1e-6) found = true;
      }
      c.check(found, "cut-not-tight", fmt("constraint %d violated by %g at the point, no cut is", j, v));
    }
    if (obj && !useX2 && !tiny) {
      bool found = false; for (auto &l : L) if (fabs(l.a[n] + 1) < 1e-9 && l.viol(z.data()) > 1 - tol(l, z.data())) found = true;
      c.check(found, "objective-cut-not-tight", "no cut forces the objective variable to the objective value at the point");
    }
    if (obj && useX2 && !tiny && !relax) {
      Vec<double> gr(n); p->obj.grad(pt.data(), gr.data()); double lin = f; for (int i = 0; i < n; i++) lin += gr[i] * (x2[i] - pt[i]);
      if (lin - x2[n] > theta + 1e-5 * (1 + fabs(lin))) { bool found = false; for (auto &l : L) if (l.a[n] != 0 && l.viol(x2.data()) > 0) found = true; c.check(found, "objective-cut-missing", "the violated objective cut was not generated"); }
    }
    for (int k = 0; k < cuts.sizeRowCuts() && !cs; k++) c.check(cuts.rowCut(k).globallyValid() == global, "cut-scope", fmt("global %d asked for", global));
    // 2. one constraint
    if (p->m()) {
      int j = (int) c.draw(p->m()); OsiCuts one; x.nlp->getConstraintOuterApproximation(one, j, pt.data(), NULL, global);
      Vec<Lin> O = linCuts(one, n + 1); c.check(O.size() == 1, "cut-count", "one cut per constraint");
      double gv = p->con[j].eval(pt.data());
      bool ranged = p->gl[j] > -BIG && p->gu[j] < BIG;
      validOn(c, *p, O, Y, "cut-not-valid", "single-constraint cut");
      double v = std::max(p->gl[j] - gv, gv - p->gu[j]);
      if (!ranged && !tiny && v > 1e-3) c.check(O[0].viol(z.data()) > v - tol(O[0], z.data()), "cut-not-tight", fmt("single-constraint cut of %d violated by %g, constraint by %g", j, O[0].viol(z.data()), v));
    }
    // 3. the linear relaxation
    {
      OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0);
      bool withObj = c.chance(80);
      x.nlp->extractLinearRelaxation(si, pt.data(), withObj);
      bool ov = withObj && !p->obj.linear();
      c.check(si.getNumCols() == n + (ov ? 1 : 0), "relaxation-columns", fmt("%d columns for %d variables", si.getNumCols(), n));
      for (int i = 0; i < n; i++) {
        double l = std::max(p->lb[i], -BIG), u = std::min(p->ub[i], BIG), a = std::max(si.getColLower()[i], -BIG), b = std::min(si.getColUpper()[i], BIG);
        c.check(l == a && u == b, "relaxation-bounds", fmt("bounds of x%d: [%g,%g], in the relaxation [%g,%g]", i, l, u, a, b));
        c.check(si.isInteger(i) == p->isInt(i), "relaxation-integrality", fmt("x%d", i));
      }
      Vec<Lin> R; const CoinPackedMatrix *M = si.getMatrixByRow();
      for (int r = 0; r < si.getNumRows(); r++) {
        Lin l; l.lb = si.getRowLower()[r]; l.ub = si.getRowUpper()[r]; l.a.assign(n + 1, 0.);
        for (int e = M->getVectorStarts()[r]; e < M->getVectorStarts()[r] + M->getVectorLengths()[r]; e++) l.a[M->getIndices()[e]] += M->getElements()[e];
        R.push_back(l);
      }
      validOn(c, *p, R, Y, "relaxation-not-valid", "row of the linear relaxation");
      // linear constraints exactly, nonlinear ones tight at pt
      for (auto &q : p->con) (void) q;
      for (int j = 0; j < p->m(); j++) {
        double gv = p->con[j].eval(pt.data()), v = std::max(p->gl[j] - gv, gv - p->gu[j]);
        if (v < 1e-3 || (!p->con[j].linear() && (tiny || ranged1))) continue;
        bool found = false; for (auto &l : R) if (fabs(l.a[n]) < 1e-12 && l.viol(z.data()) > v - tol(l, z.data())) found = true;
        c.check(found, "relaxation-not-tight", fmt("constraint %d violated by %g at the linearization point, no row is", j, v));
        someViol = true;
      }
      if (withObj) {
        Vec<double> y = Y[c.draw(Y.size())]; double fy = p->obj.eval(y.data()), off = 0; si.getDblParam(OsiObjOffset, off);
        if (ov && tiny) y.push_back(fy);
        else if (ov) {
          double sl = 0; // without constraints, coefficients below 1e-3 are moved to the right hand side
          if (!p->m()) for (int i = 0; i < n; i++) if (p->lb[i] > -BIG && p->ub[i] < BIG) sl += 1.001e-3 * (p->ub[i] - p->lb[i]);
          y.push_back(fy); bool found = false; for (auto &l : R) if (l.a[n] != 0 && l.viol(z.data()) > 1 - sl - tol(l, z.data())) found = true; c.check(found, "relaxation-objective-row", "objective row is not tight at the linearization point"); }
        double lo = -off; for (int i = 0; i < si.getNumCols(); i++) lo += si.getObjCoefficients()[i] * y[i];
        c.check(fabs(lo - fy) <= 1e-7 * (1 + fabs(fy)), "relaxation-objective", fmt("objective of the relaxation %.10g, f(y)=%.10g", lo, fy));
        c.check(si.getObjSense() == 1, "relaxation-objective", "sense");
      }
    }
    // 4. Benders cut at an integer assignment
    if (!p->obj.linear() && !tiny && c.chance(50)) {
      Vec<double> lo = p->lb, hi = p->ub, s; double v; bool any = false;
      for (int i = 0; i < n; i++) if (p->isInt(i)) { lo[i] = hi[i] = floor(unif(c, p->elb[i], p->eub[i]) + 0.5); any = true; }
      if (any && refNlp(*p, lo, hi, v, s) == 0) {
        for (int i = 0; i < n; i++) { x.nlp->setColLower(i, lo[i]); x.nlp->setColUpper(i, hi[i]); }
        x.nlp->resolve("benders");
        if (x.nlp->isProvenOptimal()) {
          OsiCuts bc; x.nlp->getBendersCut(bc, true); Vec<Lin> B = linCuts(bc, n + 1);
          c.check(B.size() == 1, "cut-count", "one Benders cut"); c.label("benders");
          double ms = 1; for (int j = 0; j < p->m(); j++) ms = std::max(ms, fabs(x.nlp->getRowPrice()[2 * n + j]));
          if (ms < 1e3) {
            for (auto &y : Y) { Vec<double> q = y; q.push_back(p->obj.eval(y.data())); double vv = B[0].viol(q.data()); if (vv > 1e-5 * ms * B[0].scale(q.data())) c.fail("benders-not-valid", fmt("Benders cut cuts off a feasible point by %g", vv)); }
            Vec<double> q(x.nlp->getColSolution(), x.nlp->getColSolution() + n); q.push_back(v - 1);
            c.check(B[0].viol(q.data()) > 1 - 1e-4 * ms * B[0].scale(q.data()), "benders-not-tight", fmt("Benders cut violated by %g at its own point, 1 expected", B[0].viol(q.data())));
            // at the same integers the cut and the linear constraints bound the objective by its value there
            OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0);
            double mc = 1; bool fin = true;
            for (int i = 0; i < n; i++) { si.addCol(0, NULL, NULL, lo[i] > -BIG ? lo[i] : -COIN_DBL_MAX, hi[i] < BIG ? hi[i] : COIN_DBL_MAX, 0.); if (lo[i] <= -BIG || hi[i] >= BIG) fin = false; else mc = std::max(mc, hi[i] - lo[i]); }
            si.addCol(0, NULL, NULL, -COIN_DBL_MAX, COIN_DBL_MAX, 1.);
            auto row = [&](const Vec<double> &a, double l, double u) { CoinPackedVector r; for (size_t i = 0; i < a.size(); i++) if (a[i] != 0) r.insert((int) i, a[i]); si.addRow(r, l, u); };
            row(B[0].a, -COIN_DBL_MAX, B[0].ub);
            for (int j = 0; j < p->m(); j++) if (p->con[j].linear()) { double k = p->con[j].eval(Vec<double>(n, 0.).data()); row(p->con[j].a, p->gl[j] > -BIG ? p->gl[j] - k - 1e-9 : -COIN_DBL_MAX, p->gu[j] < BIG ? p->gu[j] - k + 1e-9 : COIN_DBL_MAX); }
            si.initialSolve();
            if (fin && si.isProvenOptimal()) {
              c.label("benders-bound");
              c.check(si.getObjValue() > v - 1e-3 * ms * mc * (1 + fabs(v)), "benders-weak", fmt("Benders cut bounds the objective by %g at its own integers, the optimum there is %g", si.getObjValue(), v));
            }
          }
        }
      }
    }
    if ((someViol || tiny) && nl) c.nontrivial();
  });
}
static Reg r09({"P09", cutsAndRelaxation, 4000, 40000, 20, 20, 0.3, "random convex MINLP x linearization point x cut options: outer approximation, single-constraint and Benders cuts and the linear relaxation are evaluated at feasible points (validity) and at the linearization point (tightness); non-trivial: a nonlinear constraint is violated at the linearization point", 120, 1200});

// ---- P11: the solver interface as a state machine
struct IState { Vec<double> lb, ub; Vec<bool> isint; double lim = 1e300; bool limSet = false; bool startSet = false; bool solved = false, optimal = false, infeas = false; double val = 0; Vec<double> x; Vec<double> start; };
struct Inst { OsiTMINLPInterface *o; IState s; };
static void compareState(Case &c, const Prob &p, const Inst &I, const char *where) {
  const OsiTMINLPInterface &o = *I.o; int n = p.n, m = p.m();
  c.check(o.getNumCols() == n && o.getNumRows() == m, "state-size", where);
  for (int i = 0; i < n; i++) {
    double l = std::max(I.s.lb[i], -BIG), u = std::min(I.s.ub[i], BIG), a = std::max(o.getColLower()[i], -BIG), b = std::min(o.getColUpper()[i], BIG);
    c.check(l == a && u == b, "state-bounds", fmt("%s: x%d is [%g,%g], set to [%g,%g]", where, i, a, b, l, u));
    c.check(o.isInteger(i) == I.s.isint[i] && o.isContinuous(i) == !I.s.isint[i], "state-type", fmt("%s: type of x%d", where, i));
  }
  for (int j = 0; j < m; j++) {
    double l = std::max(p.gl[j], -BIG), u = std::min(p.gu[j], BIG), a = std::max(o.getRowLower()[j], -BIG), b = std::min(o.getRowUpper()[j], BIG);
    c.check(l == a && u == b, "state-rows", fmt("%s: row %d is [%g,%g], not [%g,%g]", where, j, a, b, l, u));
    char q = o.getRowSense()[j]; double r = o.getRightHandSide()[j], w = o.getRowRange()[j];
    bool ok = l == u ? q == 'E' && r == u : (u < BIG && l > -BIG) ? q == 'R' && r == u && fabs(w - (u - l)) < 1e-9 * (1 + fabs(u - l)) : u < BIG ? q == 'L' && r == u : l > -BIG ? q == 'G' && r == l : true;
    if (fabs(l) < 1e20 && fabs(u) < 1e20) c.check(ok, "state-sense", fmt("%s: row %d [%g,%g] has sense %c rhs %g range %g", where, j, l, u, q, r, w));
  }
  if (I.s.limSet) { double v = 0; c.check(o.getDblParam(OsiDualObjectiveLimit, v) && v == I.s.lim, "state-limit", fmt("%s: objective limit %g, set to %g", where, v, I.s.lim)); }
  if (I.s.solved) {
    c.check(o.isProvenOptimal() == I.s.optimal && o.isProvenPrimalInfeasible() == I.s.infeas, "state-status", fmt("%s: the status of the last solve changed", where));
    if (I.s.optimal) { c.check(o.getObjValue() == I.s.val, "state-value", fmt("%s: value of the last solve %g, was %g", where, o.getObjValue(), I.s.val)); for (int i = 0; i < n; i++) c.check(o.getColSolution()[i] == I.s.x[i], "state-solution", fmt("%s: x%d = %g, the last solve gave %g", where, i, o.getColSolution()[i], I.s.x[i])); }
  }
  if (I.s.startSet) for (int i = 0; i < n; i++) c.check(o.getColSolution()[i] == I.s.start[i], "state-solution", fmt("%s: x%d = %g after setColSolution(%g)", where, i, o.getColSolution()[i], I.s.start[i]));
}
static bool square(const Prob &p, const Inst &I) {
  int nfree = 0, neq = 0; for (int i = 0; i < p.n; i++) nfree += I.s.lb[i] < I.s.ub[i]; for (int j = 0; j < p.m(); j++) neq += p.gl[j] == p.gu[j];
  return neq && nfree <= neq;
}
static bool crossed(const Inst &I) { for (size_t i = 0; i < I.s.lb.size(); i++) if (I.s.lb[i] > I.s.ub[i]) return true; return false; }
static void compareSolve(Case &c, const Prob &p, const Inst &I, const char *what) {
  const OsiTMINLPInterface &o = *I.o; int n = p.n, m = p.m();
  if (crossed(I)) { // as after branching on a set and on one of its members
    c.label("contradictory bounds"); c.nontrivial();
    c.check(o.isProvenPrimalInfeasible() && !o.isProvenOptimal() && !o.isAbandoned(), "solve-status", std::string(what) + " with contradictory bounds is not infeasible"); return; }
  // with as many equations as free variables Ipopt only looks for a feasible point (its documented treatment of square problems)
  if (square(p, I)) { c.label("square"); return; }
  double v; Vec<double> xs; int st = refNlp(p, I.s.lb, I.s.ub, v, xs);
  if (o.isAbandoned()) { c.label("abandoned"); return; }
  if (o.isIterationLimitReached()) { c.label("iteration limit"); c.check(!o.isProvenOptimal() && !o.isProvenPrimalInfeasible() && !o.isProvenDualInfeasible(), "solve-status", std::string(what) + " stopped by the iteration limit claims a proof"); return; }
  if (st == 2) { c.label("reference-undecided"); return; }
  c.check(!o.isProvenDualInfeasible() || !std::isfinite(v), "solve-status", std::string(what) + ": unbounded");
  if (st == 1) {
    // the reference calls a problem infeasible by a margin; the interface must not call it optimal
    c.check(!o.isProvenOptimal(), "solve-status", std::string(what) + " of an infeasible problem is optimal"); c.label("infeasible"); return; }
  c.check(o.isProvenOptimal() && !o.isProvenPrimalInfeasible(), "solve-status", std::string(what) + " of a feasible problem is not optimal");
  c.label("optimal"); c.nontrivial();
  const double *x = o.getColSolution();
  double f = p.obj.eval(x);
  double gs = 0; { Vec<double> q(n); p.obj.grad(x, q.data()); for (int i = 0; i < n; i++) gs += fabs(q[i]) * (1 + fabs(x[i])); } // Ipopt moves the point by up to 1e-8 back into its bounds after the last evaluation
  c.check(fabs(f - o.getObjValue()) <= 1e-6 * (1 + fabs(f) + gs), "solve-objective", fmt("%s: value %.10g, objective at the solution %.10g", what, o.getObjValue(), f));
  c.check(fabs(f - v) <= 2e-4 * (1 + fabs(v)), "solve-optimum", fmt("%s: value %.10g, optimum of the relaxation %.10g", what, f, v));
  double big = 1;
  for (int i = 0; i < n; i++) { big = std::max(big, fabs(x[i])); c.check(x[i] >= I.s.lb[i] - 1e-5 * (1 + fabs(I.s.lb[i])) && x[i] <= I.s.ub[i] + 1e-5 * (1 + fabs(I.s.ub[i])), "solve-bounds", fmt("%s: x%d=%g outside its bounds", what, i, x[i])); }
  Vec<double> z(n), gr(n); p.obj.grad(x, z.data());
  const double *d = o.getRowPrice(); double sc = 1; for (int i = 0; i < n; i++) sc = std::max(sc, fabs(z[i])); double mult = 1;
  for (int j = 0; j < m; j++) {
    double g = p.con[j].eval(x), s = 1 + fabs(g);
    p.con[j].grad(x, gr.data()); double gn = s; for (int i = 0; i < n; i++) gn += fabs(gr[i]) * (1 + fabs(x[i]));
    c.check(fabs(o.getRowActivity()[j] - g) <= 1e-6 * gn, "solve-activity", fmt("%s: activity of row %d %.10g, value %.10g", what, j, o.getRowActivity()[j], g));
    c.check(g >= p.gl[j] - 1e-5 * s && g <= p.gu[j] + 1e-5 * s, "solve-rows", fmt("%s: row %d = %g outside [%g,%g]", what, j, g, p.gl[j], p.gu[j]));
    double lam = d[2 * n + j]; mult = std::max(mult, fabs(lam)); p.con[j].grad(x, gr.data()); for (int i = 0; i < n; i++) { z[i] += lam * gr[i]; sc = std::max(sc, fabs(lam * gr[i])); }
    double gap = std::min(g - p.gl[j], p.gu[j] - g); if (mult < 1e3 && gap > 1e-2) c.check(fabs(lam) < 1e-2 * sc, "solve-duals", fmt("%s: inactive row %d has multiplier %g", what, j, lam));
  }
  for (int i = 0; i < n; i++) { z[i] += d[n + i] - d[i]; if (I.s.lb[i] == I.s.ub[i]) z[i] = 0; } // fixed variables carry no multiplier
  if (mult < 1e3) for (int i = 0; i < n; i++) c.check(fabs(z[i]) <= 1e-3 * sc, "solve-duals", fmt("%s: multipliers leave %g of the gradient in x%d (scale %g)", what, z[i], i, sc));
}
static void interfaceStates(Case &c) {
  GenOpt g; g.infRep = false; g.mixed = c.chance(50); g.maxN = 4; g.maxM = 3; g.linearOnlyPct = 10; if (g.mixed) g.maxPts = 60;
  ProbP p = genProb(c, g); int n = p->n;
  std::string e = std::string("bonmin.warm_start ") + c.pick({"none", "optimum", "interior_point", "fake_basis"}) + "\n";
  if (c.chance(25)) e += fmt("bonmin.num_resolve_at_node %d\n", c.range(1, 2));
  if (c.chance(25)) e += fmt("bonmin.num_resolve_at_root %d\n", c.range(1, 2));
  if (c.chance(25)) e += fmt("bonmin.num_resolve_at_infeasibles %d\n", c.range(1, 2));
  if (c.chance(12)) e += fmt("max_iter %d\n", c.range(1, 12));
  c.note("%s | %s", p->str().c_str(), e.c_str());
  guarded(c, [&]() {
    Ctx x(p, e); Vec<Inst> inst; std::vector<std::unique_ptr<OsiTMINLPInterface>> own; std::vector<std::pair<std::unique_ptr<CoinWarmStart>, int>> ws;
    IState s0; s0.lb = p->lb; s0.ub = p->ub; for (int i = 0; i < n; i++) s0.isint.push_back(p->isInt(i));
    inst.push_back({x.nlp, s0}); size_t cur = 0;
    auto bnd = [&](int i) { return p->isInt(i) ? (double) c.range((int) p->lb[i], (int) p->ub[i]) : unif(c, p->lb[i], p->ub[i]); };
    auto touched = [&](Inst &I) { I.s.startSet = I.s.solved = false; };
    auto solved = [&](Inst &I) { if (I.o->isAbandoned()) return; I.s.solved = true; I.s.optimal = I.o->isProvenOptimal(); I.s.infeas = I.o->isProvenPrimalInfeasible(); I.s.val = I.o->getObjValue(); I.s.x.assign(I.o->getColSolution(), I.o->getColSolution() + n); };
    int steps = c.range(2, 9);
    for (int k = 0; k < steps; k++) {
      Inst &I = inst[cur]; int op = (int) c.draw(12);
      if (op == 0) { int i = (int) c.draw(n); double v = bnd(i); if (v > I.s.ub[i] && !c.chance(70)) continue; I.o->setColLower(i, v); I.s.lb[i] = v; touched(I); c.note(" | lower %d %g", i, v); }
      else if (op == 1) { int i = (int) c.draw(n); double v = bnd(i); if (v < I.s.lb[i] && !c.chance(70)) continue; I.o->setColUpper(i, v); I.s.ub[i] = v; touched(I); c.note(" | upper %d %g", i, v); }
      else if (op == 2) { Vec<double> l(n), u(n); for (int i = 0; i < n; i++) { l[i] = bnd(i); u[i] = bnd(i); if (l[i] > u[i]) std::swap(l[i], u[i]); } I.o->setColLower(l.data()); I.o->setColUpper(u.data()); I.s.lb = l; I.s.ub = u; touched(I); c.note(" | bounds"); for (int i = 0; i < n; i++) c.note(" [%g,%g]", l[i], u[i]); }
      else if (op == 3) { Vec<double> q(n); for (int i = 0; i < n; i++) q[i] = unif(c, p->lb[i], p->ub[i]); I.o->setColSolution(q.data()); I.s.start = q; I.s.startSet = true; I.s.solved = false; c.note(" | start"); }
      else if (op == 4) { int i = (int) c.draw(n); if (c.chance(50)) { I.o->setContinuous(i); I.s.isint[i] = false; } else { I.o->setInteger(i); I.s.isint[i] = true; } touched(I); }
      else if (op == 5) { I.o->initialSolve(); touched(I); c.note(" | initialSolve"); compareSolve(c, *p, I, "initialSolve"); solved(I); }
      else if (op == 6) { I.o->resolve(); touched(I); c.note(" | resolve"); compareSolve(c, *p, I, "resolve"); solved(I); }
      else if (op == 7 && inst.size() > 1 && c.chance(40)) { // one copy takes over the state of another one
        size_t b = c.draw(inst.size()); if (b == cur) continue;
        *inst[b].o = *I.o; inst[b].s = I.s; c.label("assignment"); c.note(" | assign to copy"); if (c.chance(60)) cur = b;
      } else if (op == 7 && inst.size() < 4) {
        OsiTMINLPInterface *q = dynamic_cast<OsiTMINLPInterface *>(I.o->clone()); own.emplace_back(q);
        if (c.chance(30)) { int i = (int) c.draw(n); q->setColLower(i, p->ub[i]); q->setColUpper(i, p->ub[i]); q->setDblParam(OsiDualObjectiveLimit, 777.); if (c.chance(40)) q->resolve(); *q = *I.o; c.label("assignment"); c.note(" | assign"); }
        Inst J = {q, I.s}; inst.push_back(J); if (c.chance(60)) cur = inst.size() - 1; c.note(" | clone"); c.label("clone");
      } else if (op == 8) { // strong branching: hot start, change a bound, solve, restore
        I.o->resolve(); touched(I); if (!I.o->isProvenOptimal()) continue;
        double f0 = I.o->getObjValue(); Vec<double> x0(I.o->getColSolution(), I.o->getColSolution() + n);
        I.o->markHotStart(); Inst T = I; c.note(" | hot start"); int r = c.range(1, 3);
        for (int q = 0; q < r; q++) {
          int i = (int) c.draw(n); double v = bnd(i); bool up = c.chance(50); double ol = I.s.lb[i], ou = I.s.ub[i]; if (v < ol || v > ou) continue;
          if (up) { I.o->setColLower(i, v); T.s.lb[i] = v; } else { I.o->setColUpper(i, v); T.s.ub[i] = v; }
          T.s.startSet = false; I.o->solveFromHotStart(); compareSolve(c, *p, T, "solveFromHotStart"); c.label("hot-start");
          I.o->setColLower(i, ol); I.o->setColUpper(i, ou); T.s.lb[i] = ol; T.s.ub[i] = ou;
        }
        I.o->unmarkHotStart(); (void) f0;
      } else if (op == 9) { ws.emplace_back(std::unique_ptr<CoinWarmStart>(I.o->getWarmStart()), 0); c.note(" | get warm start"); }
      else if (op == 10) { if (ws.empty() || c.chance(40)) { I.s.lim = unif(c, -100, 100); I.s.limSet = true; c.check(I.o->setDblParam(OsiDualObjectiveLimit, I.s.lim), "state-limit", "setDblParam refused"); } else { I.o->setWarmStart(ws[c.draw(ws.size())].first.get()); touched(I); c.note(" | set warm start"); c.label("warm-start"); } }
      else if (op == 11) { // closest feasible point
        Vec<int> ind; Vec<double> xb; for (int i = 0; i < n; i++) if (p->isInt(i)) { ind.push_back(i); xb.push_back(bnd(i)); }
        if (ind.empty() || crossed(I) || square(*p, I)) continue;
        double v; Vec<double> xs; int st = refNlp(*p, I.s.lb, I.s.ub, v, xs); if (st != 0) continue;
        double d = I.o->solveFeasibilityProblem(ind.size(), xb.data(), ind.data(), 1., 0., 2); touched(I); c.note(" | closest point"); c.label("feasibility-problem");
        if (!I.o->isProvenOptimal()) continue;
        const double *cx = I.o->getColSolution(); d = 0; for (size_t k2 = 0; k2 < ind.size(); k2++) d += pow(cx[ind[k2]] - xb[k2], 2);
        Prob q = *p; q.obj = Func(); q.obj.n = n; q.obj.a.assign(n, 0.); for (size_t k2 = 0; k2 < ind.size(); k2++) { Term t; t.kind = SQ; t.w = 1; t.b = -xb[k2]; t.d.push_back({ind[k2], 1.}); q.obj.t.push_back(t); }
        if (refNlp(q, I.s.lb, I.s.ub, v, xs) == 0) c.check(fabs(d - v) <= 1e-4 * (1 + fabs(v)), "feasibility-problem", fmt("distance %g to the closest feasible point, reference %g", d, v));
      }
      for (size_t q = 0; q < inst.size(); q++) compareState(c, *p, inst[q], q == cur ? "state" : "state of another copy");
      if (inst.size() > 1 && c.chance(30)) cur = c.draw(inst.size());
    }
  });
}
static Reg r11({"P11", interfaceStates, 3000, 30000, 20, 20, 0.3, "random convex problem x warm start and resolve options x random sequences of bound, type, start point, warm start, hot start, copy and solve operations, compared with a plain record of what was set and with direct Ipopt solves; non-trivial: at least one solve was optimal and compared", 120, 1200});

// ---- P12..P15: every NLP handed to Ipopt is the problem it stands for
// reference function: c + a x + x'Qx + w f(first nf variables)
struct RF {
  double c = 0, w = 0; Vec<double> a; Vec<double> Q; const Func *f = NULL;
  double eval(const Vec<double> &x) const {
    int n = x.size(); double v = c; for (size_t i = 0; i < a.size(); i++) v += a[i] * x[i];
    if (!Q.empty()) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v += Q[i * n + j] * x[i] * x[j];
    if (f) v += w * f->eval(x.data());
    return v;
  }
  Vec<double> grad(const Vec<double> &x) const {
    int n = x.size(); Vec<double> g(n, 0.); if (f) { f->grad(x.data(), g.data()); for (auto &e : g) e *= w; for (int i = f->n; i < n; i++) g[i] = 0; }
    for (size_t i = 0; i < a.size(); i++) g[i] += a[i];
    if (!Q.empty()) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g[i] += (Q[i * n + j] + Q[j * n + i]) * x[j];
    return g;
  }
  void hess(const Vec<double> &x, double s, Vec<double> &H) const { // symmetric, dense
    int n = x.size();
    if (!Q.empty()) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H[i * n + j] += s * (Q[i * n + j] + Q[j * n + i]);
    if (f) { int nf = f->n; Vec<double> h(nf * nf, 0.); f->hess(x.data(), s * w, h.data()); for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) H[i * n + j] += h[i * nf + j]; }
  }
};
static RF fromFunc(const Func &f) { RF r; r.w = 1; r.f = &f; return r; }
struct RefNlp { int n; Vec<double> lb, ub, gl, gu; RF obj; Vec<RF> con; int m() const { return (int) con.size(); } };
static bool nearly(double a, double b, double s) { return a == b || fabs(a - b) <= 1e-9 * (1 + s); }
static GenTMINLP *user = NULL; // the problem behind the adapter under test
// the whole of the TNLP interface against the reference at x
static void checkTNLP(Case &c, Ipopt::TNLP &t, TMINLP2TNLP *t2, const RefNlp &r, const Vec<double> &x, const char *what) {
  using namespace Ipopt;
  int n, m, nj, nh; TNLP::IndexStyleEnum st;
  c.check(t.get_nlp_info(n, m, nj, nh, st), "nlp-info", fmt("%s: get_nlp_info fails", what));
  c.check(n == r.n && m == r.m(), "nlp-info", fmt("%s: %d variables and %d rows, expected %d and %d", what, n, m, r.n, r.m()));
  c.check(nj >= 0 && nh >= 0 && nj < 10000 && nh < 10000, "nlp-info", fmt("%s: %d Jacobian and %d Hessian elements", what, nj, nh));
  int off = st == TNLP::FORTRAN_STYLE;
  Vec<double> xl(n), xu(n), gl(m), gu(m);
  c.check(t.get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data()), "nlp-bounds", fmt("%s: get_bounds_info fails", what));
  for (int i = 0; i < n; i++) c.check((xl[i] == r.lb[i] || (xl[i] < -BIG && r.lb[i] < -BIG)) && (xu[i] == r.ub[i] || (xu[i] > BIG && r.ub[i] > BIG)), "nlp-bounds", fmt("%s: x%d in [%g,%g], expected [%g,%g]", what, i, xl[i], xu[i], r.lb[i], r.ub[i]));
  for (int j = 0; j < m; j++) c.check((nearly(gl[j], r.gl[j], fabs(r.gl[j])) || (gl[j] < -BIG && r.gl[j] < -BIG)) && (nearly(gu[j], r.gu[j], fabs(r.gu[j])) || (gu[j] > BIG && r.gu[j] > BIG)), "nlp-bounds", fmt("%s: row %d in [%.10g,%.10g], expected [%.10g,%.10g]", what, j, gl[j], gu[j], r.gl[j], r.gu[j]));
  double big = 1; for (double v : x) big = std::max(big, fabs(v));
  // structures
  Vec<int> jr(nj + 1, -7), jc(nj + 1, -7), hr(nh + 1, -7), hc(nh + 1, -7);
  c.check(t.eval_jac_g(n, NULL, false, m, nj, jr.data(), jc.data(), NULL), "nlp-jacobian", fmt("%s: structure fails", what));
  c.check(jr[nj] == -7 && jc[nj] == -7, "nlp-jacobian", fmt("%s: more than the announced %d elements", what, nj));
  for (int k = 0; k < nj; k++) c.check(jr[k] - off >= 0 && jr[k] - off < m && jc[k] - off >= 0 && jc[k] - off < n, "nlp-jacobian", fmt("%s: element %d at (%d,%d), %d x %d, first index %d", what, k, jr[k], jc[k], m, n, off));
  c.check(t.eval_h(n, NULL, false, 1., m, NULL, false, nh, hr.data(), hc.data(), NULL), "nlp-hessian", fmt("%s: structure fails", what));
  c.check(hr[nh] == -7 && hc[nh] == -7, "nlp-hessian", fmt("%s: more than the announced %d elements", what, nh));
  for (int k = 0; k < nh; k++) c.check(hr[k] - off >= 0 && hr[k] - off < n && hc[k] - off >= 0 && hc[k] - off < n, "nlp-hessian", fmt("%s: element %d at (%d,%d), order %d, first index %d", what, k, hr[k], hc[k], n, off));
  // values, in a random order: the first call says new_x, the others may or may not
  Vec<int> order = {0, 1, 2, 3, 4, 5, 6}; for (int k = 6; k > 0; k--) std::swap(order[k], order[c.draw(k + 1)]);
  bool nx = true;
  for (int o : order) {
    bool fresh = nx || c.chance(20); nx = false;
    if (o == 0) { double v; c.check(t.eval_f(n, x.data(), fresh, v), "nlp-objective", fmt("%s: eval_f fails", what)); double e = r.obj.eval(x); c.check(nearly(v, e, fabs(e) + big * big), "nlp-objective", fmt("%s: objective %.12g, expected %.12g", what, v, e)); }
    else if (o == 1) { Vec<double> g(n, NAN), e = r.obj.grad(x); c.check(t.eval_grad_f(n, x.data(), fresh, g.data()), "nlp-gradient", fmt("%s: eval_grad_f fails", what)); for (int i = 0; i < n; i++) c.check(nearly(g[i], e[i], fabs(e[i]) + big), "nlp-gradient", fmt("%s: gradient element %d %.12g, expected %.12g", what, i, g[i], e[i])); }
    else if (o == 2) { Vec<double> g(m, NAN); c.check(t.eval_g(n, x.data(), fresh, m, g.data()), "nlp-rows", fmt("%s: eval_g fails", what)); for (int j = 0; j < m; j++) { double e = r.con[j].eval(x); c.check(nearly(g[j], e, fabs(e) + big * big), "nlp-rows", fmt("%s: row %d %.12g, expected %.12g", what, j, g[j], e)); } }
    else if (o == 3) {
      Vec<double> v(nj + 1, NAN); v[nj] = 12345; c.check(t.eval_jac_g(n, x.data(), fresh, m, nj, NULL, NULL, v.data()), "nlp-jacobian", fmt("%s: eval_jac_g fails", what)); c.check(v[nj] == 12345, "nlp-jacobian", fmt("%s: more than the announced values", what));
      Vec<double> J(m * n, 0.); for (int k = 0; k < nj; k++) J[(jr[k] - off) * n + jc[k] - off] += v[k];
      for (int j = 0; j < m; j++) { Vec<double> e = r.con[j].grad(x); for (int i = 0; i < n; i++) c.check(nearly(J[j * n + i], e[i], fabs(e[i]) + big), "nlp-jacobian", fmt("%s: row %d, x%d: %.12g, expected %.12g", what, j, i, J[j * n + i], e[i])); }
    } else if (o == 4) {
      Vec<double> lam(m), v(nh + 1, NAN); v[nh] = 12345; for (auto &l : lam) l = c.rat(4, 2); double of = c.rat(3, 2);
      c.check(t.eval_h(n, x.data(), fresh, of, m, lam.data(), c.chance(70), nh, NULL, NULL, v.data()), "nlp-hessian", fmt("%s: eval_h fails", what)); c.check(v[nh] == 12345, "nlp-hessian", fmt("%s: more than the announced values", what));
      Vec<double> H(n * n, 0.), E(n * n, 0.); for (int k = 0; k < nh; k++) { int a = hr[k] - off, b = hc[k] - off; H[a * n + b] += v[k]; if (a != b) H[b * n + a] += v[k]; }
      r.obj.hess(x, of, E); for (int j = 0; j < m; j++) r.con[j].hess(x, lam[j], E);
      for (int i = 0; i < n * n; i++) c.check(nearly(H[i], E[i], fabs(E[i]) + 10), "nlp-hessian", fmt("%s: (x%d,x%d): %.12g, expected %.12g (objective factor %g)", what, i / n, i % n, H[i], E[i], of));
    } else if (t2 && m && o == 5) { int i = (int) c.draw(m); double v = NAN; c.check(t2->eval_gi(n, x.data(), fresh, i, v), "nlp-row", fmt("%s: eval_gi of row %d fails", what, i)); double e = r.con[i].eval(x); c.check(nearly(v, e, fabs(e) + big * big), "nlp-row", fmt("%s: eval_gi of row %d %.12g, expected %.12g", what, i, v, e)); }
    else if (t2 && m && o == 6) {
      int i = (int) c.draw(m), ne = -1; Vec<int> jj(n, -7); Vec<double> v(n, NAN);
      c.check(t2->eval_grad_gi(n, x.data(), fresh, i, ne, jj.data(), NULL), "nlp-row", fmt("%s: eval_grad_gi of row %d fails", what, i));
      c.check(ne >= 0 && ne <= n, "nlp-row", fmt("%s: eval_grad_gi of row %d: %d elements", what, i, ne)); int ne0 = ne;
      c.check(t2->eval_grad_gi(n, x.data(), fresh, i, ne, NULL, v.data()), "nlp-row", fmt("%s: eval_grad_gi of row %d fails", what, i));
      c.check(ne == ne0, "nlp-row", fmt("%s: eval_grad_gi of row %d: %d elements, then %d", what, i, ne0, ne));
      Vec<double> G(n, 0.), e = r.con[i].grad(x); for (int k = 0; k < ne; k++) { c.check(jj[k] - off >= 0 && jj[k] - off < n, "nlp-row", fmt("%s: eval_grad_gi of row %d: column %d", what, i, jj[k])); G[jj[k] - off] += v[k]; }
      for (int k = 0; k < n; k++) c.check(nearly(G[k], e[k], fabs(e[k]) + big), "nlp-row", fmt("%s: eval_grad_gi of row %d, x%d: %.12g, expected %.12g", what, i, k, G[k], e[k]));
    } else nx = nx || fresh;
  }
  if (user && c.chance(20)) { // a failed evaluation is passed on
    struct Arm { long from; Arm(int k) { from = user->hook.failFrom = user->hook.count + 1 + k; user->hook.failTo = LONG_MAX; user->hook.mode = 1; } ~Arm() { user->hook.failFrom = -1; user->hook.mode = 0; user->lastx.clear(); } } arm(c.chance(60) ? 0 : 1);
    bool ok; double v; Vec<double> a(n + 1), b(m + 1), jv(nj + 1), hv(nh + 1), lam(m + 1, 1.); const char *fn = "";
    switch (c.draw(t2 && m ? 7 : 5)) {
      case 0: fn = "eval_f"; ok = t.eval_f(n, x.data(), true, v); break;
      case 1: fn = "eval_grad_f"; ok = t.eval_grad_f(n, x.data(), true, a.data()); break;
      case 2: fn = "eval_g"; ok = t.eval_g(n, x.data(), true, m, b.data()); break;
      case 3: fn = "eval_jac_g"; ok = t.eval_jac_g(n, x.data(), true, m, nj, NULL, NULL, jv.data()); break;
      case 4: fn = "eval_h"; ok = t.eval_h(n, x.data(), true, 1., m, lam.data(), true, nh, NULL, NULL, hv.data()); break;
      case 5: fn = "eval_gi"; ok = t2->eval_gi(n, x.data(), true, (int) c.draw(m), v); break;
      default: { fn = "eval_grad_gi"; Vec<int> jj(n); int ne, i = (int) c.draw(m); t2->eval_grad_gi(n, x.data(), true, i, ne, jj.data(), NULL); arm.from = user->hook.failFrom = user->hook.count + 1; ok = t2->eval_grad_gi(n, x.data(), true, i, ne, NULL, a.data()); }
    }
    if (user->hook.count >= arm.from && !(r.obj.w == 0 && !strncmp(fn, "eval_f", 6)) && !(r.obj.w == 0 && !strcmp(fn, "eval_grad_f"))) { // values that are not used do not count
      c.label("failed evaluation"); c.check(!ok, "nlp-failure", fmt("%s: %s reports success though the evaluation failed", what, fn)); }
  }
}
static void checkStart(Case &c, Ipopt::TNLP &t, int n, int m, const Vec<double> &x, const Vec<double> *dual, const char *what) {
  Vec<double> s(n, NAN), zl(n, NAN), zu(n, NAN), la(m + 1, NAN); bool d = dual != NULL;
  c.check(t.get_starting_point(n, true, s.data(), d, zl.data(), zu.data(), m, d, la.data()), "nlp-start", fmt("%s: get_starting_point fails", what));
  for (int i = 0; i < n; i++) c.check(s[i] == x[i], "nlp-start", fmt("%s: x%d starts at %g, expected %g", what, i, s[i], x[i]));
  if (d) { for (int i = 0; i < n; i++) c.check(zl[i] == (*dual)[i] && zu[i] == (*dual)[n + i], "nlp-start", fmt("%s: bound multipliers of x%d %g %g, expected %g %g", what, i, zl[i], zu[i], (*dual)[i], (*dual)[n + i])); for (int j = 0; j < m; j++) c.check(la[j] == (*dual)[2 * n + j], "nlp-start", fmt("%s: multiplier of row %d %g, expected %g", what, j, la[j], (*dual)[2 * n + j])); }
  else { c.check(!t.get_starting_point(n, true, s.data(), true, zl.data(), zu.data(), m, true, la.data()), "nlp-start", fmt("%s: multipliers given though none were set", what)); }
}
static Vec<double> anyPoint(Case &c, const Prob &p) { Vec<double> x; for (int i = 0; i < p.n; i++) x.push_back(unif(c, std::max(p.lb[i], -20.), std::min(p.ub[i], 20.))); return x; }
static ProbP adapterProb(Case &c, bool nonconvex) { GenOpt g; g.infRep = false; g.mixed = true; g.maxN = 5; g.maxM = 4; g.allowNonconvex = nonconvex; ProbP p = genProb(c, g); c.note("%s", p->str().c_str()); return p; }
struct Quiet { // the code under test prints
  int so; Quiet() { fflush(stdout); so = dup(1); int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); } ~Quiet() { fflush(stdout); std::cout.flush(); dup2(so, 1); close(so); }
};

// P12: the continuous relaxation handed to Ipopt, over histories of changes
static void relaxationNlp(Case &c) {
  ProbP p = adapterProb(c, true); int n = p->n, m = p->m();
  guarded(c, [&]() {
    Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(p); user = Ipopt::GetRawPtr(t);
    struct S { Ipopt::SmartPtr<TMINLP2TNLP> a; Vec<double> lb, ub, x; Vec<double> dual; bool hasDual; Vec<int> ty; Vec<double> xs, gs, ds; double ov; bool solved; };
    Vec<S> v; S s0; s0.a = new TMINLP2TNLP(Ipopt::GetRawPtr(t)); s0.lb = p->lb; s0.ub = p->ub; s0.x = p->x0; s0.hasDual = s0.solved = false; s0.ov = 0; s0.ty = p->type; v.push_back(s0);
    size_t cur = 0; int steps = c.range(1, 8);
    auto vec = [&](int k) { Vec<double> r(k); for (auto &e : r) e = c.rat(9, 4); return r; };
    for (int k = 0; k < steps; k++) {
      S &s = v[cur]; int i = (int) c.draw(n);
      switch (c.draw(13)) {
        case 0: s.lb[i] = c.rat(9, 2); s.a->SetVariableLowerBound(i, s.lb[i]); c.note(" | lower %d", i); break;
        case 1: s.ub[i] = c.rat(9, 2); s.a->SetVariableUpperBound(i, s.ub[i]); c.note(" | upper %d", i); break;
        case 2: s.lb[i] = c.rat(9, 2); s.ub[i] = c.rat(9, 2); s.a->SetVariableBounds(i, s.lb[i], s.ub[i]); c.note(" | bounds %d", i); break;
        case 3: s.lb = vec(n); s.ub = vec(n); s.a->SetVariablesBounds(n, s.lb.data(), s.ub.data()); c.note(" | all bounds"); break;
        case 4: s.lb = vec(n); s.a->SetVariablesLowerBounds(n, s.lb.data()); c.note(" | all lower"); break;
        case 5: s.ub = vec(n); s.a->SetVariablesUpperBounds(n, s.ub.data()); c.note(" | all upper"); break;
        case 6: s.x = vec(n); s.a->setxInit(n, s.x.data()); c.note(" | start"); break;
        case 7: if (s.x == p->x0) { s.x = vec(n); s.a->setxInit(n, s.x.data()); } s.dual = vec(2 * n + m); s.hasDual = true; s.a->setDualsInit(2 * n + m, s.dual.data()); c.note(" | duals"); break;
        case 8: s.x = p->x0; s.hasDual = false; s.a->resetStartingPoint(); c.note(" | reset start"); break;
        case 9: s.ty[i] = (int) c.draw(3); s.a->SetVariableType(i, s.ty[i] == 0 ? TMINLP::CONTINUOUS : s.ty[i] == 1 ? TMINLP::BINARY : TMINLP::INTEGER); c.note(" | type %d", i); break;
        case 10: if (v.size() < 4) { S q = s; q.a = s.a->clone(); v.push_back(q); c.note(" | clone"); c.label("clone"); } break;
        case 11: { s.xs = vec(n); s.gs = vec(m); s.ds = vec(2 * n + m); s.ov = c.rat(9, 4); s.solved = true; c.note(" | finalize"); s.a->finalize_solution(Ipopt::SUCCESS, n, s.xs.data(), s.ds.data(), s.ds.data() + n, m, s.gs.data(), s.ds.data() + 2 * n, s.ov, NULL, NULL); c.label("finalize"); break; }
        default: if (s.solved) { // round the integers, re-evaluate
          c.note(" | check solution"); Vec<double> y = s.xs; for (int q = 0; q < n; q++) if (s.ty[q]) y[q] = floor(y[q] + .5);
          double e = 0, big = 1; 
          for (int j = 0; j < m; j++) { double g = p->con[j].eval(y.data()); if (!std::isfinite(g)) { e = NAN; break; } big = std::max(big, fabs(g)); e = std::max(e, std::max(p->gl[j] - g, g - p->gu[j])); s.gs[j] = g; }
          if (!std::isfinite(e) || !std::isfinite(p->obj.eval(y.data()))) { s.solved = false; v.erase(v.begin() + cur); if (v.empty()) return; cur = 0; break; }
          double got = s.a->check_solution(); s.xs = y; s.ov = p->obj.eval(y.data());
          c.check(nearly(got, std::max(0., e), big), "check-solution", fmt("check_solution gives an error of %.10g, expected %.10g", got, std::max(0., e))); c.label("check-solution");
        }
      }
      for (size_t q = 0; q < v.size(); q++) {
        S &z = v[q]; const char *w = q == cur ? "relaxation" : "another copy";
        RefNlp r; r.n = n; r.lb = z.lb; r.ub = z.ub; r.gl = p->gl; r.gu = p->gu; r.obj = fromFunc(p->obj); for (auto &f : p->con) r.con.push_back(fromFunc(f));
        checkTNLP(c, *z.a, Ipopt::GetRawPtr(z.a), r, anyPoint(c, *p), w);
        checkStart(c, *z.a, n, m, z.x, z.hasDual ? &z.dual : NULL, w);
        for (int i2 = 0; i2 < n; i2++) { c.check(z.a->var_types()[i2] == (z.ty[i2] == 0 ? TMINLP::CONTINUOUS : z.ty[i2] == 1 ? TMINLP::BINARY : TMINLP::INTEGER), "nlp-types", fmt("%s: type of x%d", w, i2)); c.check(z.a->orig_x_l()[i2] == p->lb[i2] && z.a->orig_x_u()[i2] == p->ub[i2], "nlp-original", fmt("%s: original bounds of x%d changed", w, i2)); }
        if (z.solved) {
          c.check(nearly(z.a->obj_value(), z.ov, fabs(z.ov)), "nlp-solution", fmt("%s: value %g, finalized with %g", w, z.a->obj_value(), z.ov));
          for (int i2 = 0; i2 < n; i2++) c.check(z.a->x_sol()[i2] == z.xs[i2], "nlp-solution", fmt("%s: solution x%d %g, finalized with %g", w, i2, z.a->x_sol()[i2], z.xs[i2]));
          for (int j = 0; j < m; j++) c.check(nearly(z.a->g_sol()[j], z.gs[j], fabs(z.gs[j])), "nlp-solution", fmt("%s: activity %d", w, j));
          for (int i2 = 0; i2 < 2 * n + m; i2++) c.check(z.a->duals_sol()[i2] == z.ds[i2], "nlp-solution", fmt("%s: dual %d %g, finalized with %g", w, i2, z.a->duals_sol()[i2], z.ds[i2]));
        }
      }
      c.check(t->protocol.empty(), "callback-contract", t->protocol);
      if (v.size() > 1 && c.chance(30)) cur = c.draw(v.size());
    }
    c.nontrivial();
  });
}
static Reg r12({"P12", relaxationNlp, 150000, 2000000, 20, 50, 0.3, "random MINLP x random sequences of bound, start point, multiplier, type, copy, solution operations on the NLP handed to Ipopt, all its functions compared with the problem after every operation; non-trivial: every case", 90, 900});

// P13: with linear and quadratic cuts
static void quadCuts(Case &c) {
  ProbP p = adapterProb(c, true); int n = p->n;
  guarded(c, [&]() {
    Quiet quiet;
    Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(p); user = Ipopt::GetRawPtr(t);
    struct S { Ipopt::SmartPtr<TMINLP2TNLPQuadCuts> a; Vec<RF> cut; Vec<double> gl, gu; Vec<double> x; bool lin; RF obj; Vec<double> dual, ds, xs; };
    Vec<S> v; S s0; s0.a = new TMINLP2TNLPQuadCuts(Ipopt::GetRawPtr(t)); s0.lin = false; s0.x = p->x0; v.push_back(s0); size_t cur = 0;
    auto mk = [&](bool quad, RF &f, double &l, double &u) {
      CoinPackedVector row; f = RF(); f.a.assign(n, 0.); for (int i = 0; i < n; i++) if (c.chance(50)) { f.a[i] = c.rat(4, 2); row.insert(i, f.a[i]); }
      l = c.chance(50) ? -COIN_DBL_MAX : c.rat(9, 2) - 10; u = c.chance(50) ? COIN_DBL_MAX : c.rat(9, 2) + 10;
      OsiRowCut *rc;
      if (!quad) rc = new OsiRowCut;
      else {
        QuadCut *q = new QuadCut; rc = q; f.Q.assign(n * n, 0.); f.c = c.chance(50) ? 0. : c.rat(5, 2); q->c() = f.c;
        int ty = (int) c.draw(3); MatrixStorageType T = ty == 0 ? Upper : ty == 1 ? Lower : Full; q->type() = T;
        bool colOrd = c.chance(60); Vec<int> ri, ci; Vec<double> el;
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (c.chance(35)) {
          double e = c.rat(3, 2); f.Q[i * n + j] = f.Q[j * n + i] = e; // a full symmetric matrix; the triangles list it once
          if (T == Lower || T == Full) { ri.push_back(i); ci.push_back(j); el.push_back(e); }
          if ((T == Upper) || (T == Full && i != j)) { ri.push_back(j); ci.push_back(i); el.push_back(e); }
        }
        if (!ri.empty()) { CoinPackedMatrix M(colOrd, ri.data(), ci.data(), el.data(), el.size()); q->Q() = M; }
        c.label(ty == 0 ? "upper" : ty == 1 ? "lower" : "full");
      }
      rc->setRow(row); rc->setLb(l); rc->setUb(u);
      if (quad) { QuadCut *q = dynamic_cast<QuadCut *>(rc); Vec<double> x = anyPoint(c, *p); double g = f.eval(x), e = std::max(l - g, g - u); c.check(nearly(q->violated(x.data()), e, fabs(g) + 100), "cut-violation", fmt("violation %g, expected %g", q->violated(x.data()), e)); }
      return rc;
    };
    int steps = c.range(1, 7);
    for (int k = 0; k < steps; k++) {
      S &s = v[cur]; int op = (int) c.draw(8);
      if (op == 6) { int m = p->m() + s.cut.size(); s.dual.resize(2 * n + m); for (auto &e : s.dual) e = c.rat(4, 2); s.a->setxInit(n, s.x.data()); s.a->setDualsInit(2 * n + m, s.dual.data()); c.note(" | duals"); }
      else if (op == 7) { int m = p->m() + s.cut.size(); s.ds.resize(2 * n + m); for (auto &e : s.ds) e = c.rat(4, 2); s.xs = anyPoint(c, *p); Vec<double> g(m, 1.5); s.a->finalize_solution(Ipopt::SUCCESS, n, s.xs.data(), s.ds.data(), s.ds.data() + n, m, g.data(), s.ds.data() + 2 * n, 2.5, NULL, NULL); c.note(" | finalize"); }
      else if (op <= 2) {
        int nc = c.range(1, 3); Vec<RF> lf, qf; Vec<double> ll, lu, ql, qu; Vec<RF> of; Vec<double> ol, ou; Vec<OsiRowCut *> own; bool anyq = false;
        Bonmin::Cuts qc; OsiCuts oc; Vec<const OsiRowCut *> arr;
        for (int q = 0; q < nc; q++) {
          bool quad = c.chance(60); RF f; double l, u; OsiRowCut *rc = mk(quad, f, l, u); own.push_back(rc); anyq |= quad;
          of.push_back(f); ol.push_back(l); ou.push_back(u); arr.push_back(rc);
          if (quad) { qf.push_back(f); ql.push_back(l); qu.push_back(u); } else { lf.push_back(f); ll.push_back(l); lu.push_back(u); }
          if (op == 1) { if (quad) qc.insert(*dynamic_cast<QuadCut *>(rc)); else qc.OsiCuts::insert(*rc); }
          if (op == 2) oc.insert(*rc);
        }
        if (op == 0) { s.a->addCuts((unsigned) nc, arr.data()); }
        else if (op == 1) { // quadratic ones first
          if (c.chance(50)) s.a->addCuts(qc, c.chance(50)); else s.a->addCuts((const OsiCuts &) qc);
          of = qf; ol = ql; ou = qu; of.insert(of.end(), lf.begin(), lf.end()); ol.insert(ol.end(), ll.begin(), ll.end()); ou.insert(ou.end(), lu.begin(), lu.end());
        } else s.a->addCuts(oc);
        s.cut.insert(s.cut.end(), of.begin(), of.end()); s.gl.insert(s.gl.end(), ol.begin(), ol.end()); s.gu.insert(s.gu.end(), ou.begin(), ou.end());
        if (!s.dual.empty()) s.dual.resize(2 * n + p->m() + s.cut.size(), 0.);
        if (!s.ds.empty()) s.ds.resize(2 * n + p->m() + s.cut.size(), 0.);
        for (auto *r : own) delete r;
        c.note(" | add %d (way %d)%s", nc, op, anyq ? " quadratic" : ""); if (anyq) c.label("quadratic"); c.nontrivial();
      } else if (op == 3 && !s.cut.empty()) {
        Vec<int> idx; Vec<RF> kc; Vec<double> kl, ku, kd, ks; int d0 = 2 * n + p->m(); for (size_t q = 0; q < s.cut.size(); q++) if (c.chance(40)) idx.push_back(p->m() + (int) q); else { if (!s.dual.empty()) kd.push_back(s.dual[d0 + q]); if (!s.ds.empty()) ks.push_back(s.ds[d0 + q]); kc.push_back(s.cut[q]); kl.push_back(s.gl[q]); ku.push_back(s.gu[q]); }
        for (int q = (int) idx.size() - 1; q > 0; q--) std::swap(idx[q], idx[c.draw(q + 1)]);
        s.a->removeCuts(idx.size(), idx.data()); s.cut = kc; s.gl = kl; s.gu = ku; if (!s.dual.empty()) { s.dual.resize(d0); s.dual.insert(s.dual.end(), kd.begin(), kd.end()); } if (!s.ds.empty()) { s.ds.resize(d0); s.ds.insert(s.ds.end(), ks.begin(), ks.end()); } c.note(" | remove %d", (int) idx.size()); c.label("remove");
      } else if (op == 4 && v.size() < 3) { S q = s; q.a = dynamic_cast<TMINLP2TNLPQuadCuts *>(s.a->clone()); v.push_back(q); c.note(" | clone"); c.label("clone"); }
      else if (op == 5) { if (c.chance(50)) { Vec<double> o(n); for (auto &e : o) e = c.rat(4, 2); s.lin = true; s.obj = RF(); s.obj.a = o; s.obj.c = c.rat(4, 2); s.a->set_linear_objective(n, o.data(), s.obj.c); c.note(" | linear objective"); } else { for (auto &e : s.x) e = c.rat(5, 2); s.a->setxInit(n, s.x.data()); c.note(" | start"); } }
      for (size_t q = 0; q < v.size(); q++) {
        S &z = v[q]; const char *w = q == cur ? "problem with cuts" : "another copy";
        RefNlp r; r.n = n; r.lb = p->lb; r.ub = p->ub; r.gl = p->gl; r.gu = p->gu; r.obj = z.lin ? z.obj : fromFunc(p->obj); for (auto &f : p->con) r.con.push_back(fromFunc(f));
        for (size_t j = 0; j < z.cut.size(); j++) { r.con.push_back(z.cut[j]); r.gl.push_back(z.gl[j]); r.gu.push_back(z.gu[j]); }
        checkTNLP(c, *z.a, Ipopt::GetRawPtr(z.a), r, anyPoint(c, *p), w);
        if (!z.dual.empty()) checkStart(c, *z.a, n, r.m(), z.x, &z.dual, w);
        if (!z.ds.empty()) { for (int i = 0; i < n; i++) c.check(z.a->x_sol()[i] == z.xs[i], "nlp-solution", fmt("%s: x%d", w, i)); for (size_t i = 0; i < z.ds.size(); i++) c.check(z.a->duals_sol()[i] == z.ds[i], "nlp-solution", fmt("%s: multiplier %d of the solution %g, expected %g", w, (int) i, z.a->duals_sol()[i], z.ds[i])); }
        Vec<double> st(n, NAN); c.check(z.a->get_starting_point(n, true, st.data(), false, NULL, NULL, r.m(), false, NULL), "nlp-start", "get_starting_point fails"); for (int i = 0; i < n; i++) c.check(st[i] == z.x[i], "nlp-start", fmt("%s: x%d starts at %g, expected %g", w, i, st[i], z.x[i]));
        Vec<Ipopt::TNLP::LinearityType> lt(r.m() + 1); c.check(z.a->get_constraints_linearity(r.m(), lt.data()), "nlp-linearity", "get_constraints_linearity fails");
        for (int j = 0; j < r.m(); j++) { bool lin = j < p->m() ? p->con[j].linear() : true; if (j >= p->m()) for (double e : z.cut[j - p->m()].Q) lin &= e == 0; if (lt[j] == Ipopt::TNLP::LINEAR) c.check(lin, "nlp-linearity", fmt("%s: row %d declared linear", w, j)); }
      }
      if (v.size() > 1 && c.chance(30)) cur = c.draw(v.size());
    }
  });
}
static Reg r13({"P13", quadCuts, 120000, 2000000, 20, 50, 0.3, "random MINLP x random sequences of adding and removing linear and quadratic cuts (three matrix storages, three ways to add), copies, linear objectives, all functions compared with the problem after every operation; non-trivial: at least one cut added", 90, 900});

// P14: the objective moved into a constraint
static void linObj(Case &c) {
  ProbP p = adapterProb(c, true); int n = p->n;
  guarded(c, [&]() {
    Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(p); user = Ipopt::GetRawPtr(t);
    Ipopt::SmartPtr<TMINLPLinObj> lo = new TMINLPLinObj; lo->setTminlp(Ipopt::GetRawPtr(t));
    Ipopt::SmartPtr<TMINLP2TNLP> a = new TMINLP2TNLP(Ipopt::GetRawPtr(lo));
    RefNlp r; r.n = n + 1; r.lb = p->lb; r.ub = p->ub; r.lb.push_back(-1e300); r.ub.push_back(1e300); r.obj.a.assign(n + 1, 0.); r.obj.a[n] = 1;
    RF f = fromFunc(p->obj); f.a.assign(n + 1, 0.); f.a[n] = -1; r.con.push_back(f); r.gl.push_back(-1e300); r.gu.push_back(0.);
    for (int j = 0; j < p->m(); j++) { r.con.push_back(fromFunc(p->con[j])); r.gl.push_back(p->gl[j]); r.gu.push_back(p->gu[j]); }
    int k = c.range(1, 3);
    for (int q = 0; q < k; q++) { Vec<double> x = anyPoint(c, *p); x.push_back(c.rat(20, 2)); checkTNLP(c, *a, Ipopt::GetRawPtr(a), r, x, "linear-objective form"); }
    Vec<double> st = p->x0; st.push_back(p->obj.eval(p->x0.data())); if (std::isfinite(st[n])) checkStart(c, *a, n + 1, p->m() + 1, st, NULL, "linear-objective form");
    c.check(lo->hasLinearObjective(), "nlp-linearity", "the objective is not declared linear");
    Vec<TMINLP::VariableType> vt(n + 1); c.check(lo->get_variables_types(n + 1, vt.data()) && vt[n] == TMINLP::CONTINUOUS, "nlp-types", "type of the added variable"); for (int i = 0; i < n; i++) c.check(vt[i] == (p->type[i] == 0 ? TMINLP::CONTINUOUS : p->type[i] == 1 ? TMINLP::BINARY : TMINLP::INTEGER), "nlp-types", fmt("type of x%d", i));
    Vec<Ipopt::TNLP::LinearityType> lt(n + 1 + p->m() + 1); c.check(lo->get_constraints_linearity(p->m() + 1, lt.data()), "nlp-linearity", "fails"); for (int j = 0; j <= p->m(); j++) if (lt[j] == Ipopt::TNLP::LINEAR) c.check(j ? p->con[j - 1].linear() : p->obj.linear(), "nlp-linearity", fmt("row %d declared linear", j));
    c.check(lo->get_variables_linearity(n + 1, lt.data()), "nlp-linearity", "fails"); Vec<bool> nl(n + 1, false); for (auto &q : p->obj.t) for (auto &e : q.d) nl[e.first] = true; for (auto &g : p->con) for (auto &q : g.t) for (auto &e : q.d) nl[e.first] = true;
    for (int i = 0; i <= n; i++) if (lt[i] == Ipopt::TNLP::LINEAR) c.check(!nl[i], "nlp-linearity", fmt("variable %d declared linear", i));
    // what the solver returns reaches the user without the added variable
    Vec<double> xs; for (int i = 0; i <= n; i++) xs.push_back(c.rat(5, 2)); lo->finalize_solution(TMINLP::SUCCESS, n + 1, xs.data(), 4.5);
    c.check(t->fins.size() == 1 && t->fins[0].hasx && (int) t->fins[0].x.size() == n && t->fins[0].obj == 4.5, "nlp-solution", "finalize_solution is not passed on"); for (int i = 0; i < n; i++) c.check(t->fins[0].x[i] == xs[i], "nlp-solution", fmt("x%d", i));
    c.check(t->protocol.empty(), "callback-contract", t->protocol);
    c.nontrivial();
  });
}
static Reg r14({"P14", linObj, 150000, 2000000, 20, 50, 0.3, "random MINLP in linear-objective form: all functions, structures, start, linearity and the returned solution compared with the problem; non-trivial: every case", 60, 600});

// P15: the feasibility-pump and local-branching NLPs
static void pumpNlp(Case &c) {
  ProbP p = adapterProb(c, true); int n = p->n;
  guarded(c, [&]() {
    Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(p); user = Ipopt::GetRawPtr(t);
    Ipopt::SmartPtr<TMINLP2TNLP> a = new TMINLP2TNLP(Ipopt::GetRawPtr(t)); double sf = c.chance(50) ? 100 : c.range(1, 10);
    Ipopt::SmartPtr<TNLP2FPNLP> f = c.chance(50) ? new TNLP2FPNLP(Ipopt::GetRawPtr(a)) : new TNLP2FPNLP(Ipopt::GetRawPtr(a), sf);
    bool dflt = false; { double v0, v1; Vec<double> x = p->x0; int z = 0; double va = x[0] - 1; f->set_use_feasibility_pump_objective(true); f->set_dist_to_point_obj(1, &va, &z); f->setLambda(1.); f->setSigma(0.); f->setNorm(2); f->eval_f(n, x.data(), true, v0); v1 = v0; dflt = v1 != sf; if (dflt) sf = 100; f->set_use_feasibility_pump_objective(false); }
    bool pump = false, cut = false, lb = false; double lam = 1, sig = 0, co = 0, rhs = 0; int norm = 2; Vec<int> ind; Vec<double> val;
    int steps = c.range(1, 6);
    for (int k = 0; k < steps; k++) {
      switch (c.draw(6)) {
        case 0: pump = c.chance(70); f->set_use_feasibility_pump_objective(pump); c.note(" | pump objective %d", pump); break;
        case 1: cut = c.chance(70); f->set_use_cutoff_constraint(cut); { co = c.rat(9, 2); f->set_cutoff(co); } c.note(" | cutoff %d %g", cut, co); break;
        case 2: lb = c.chance(70); f->set_use_local_branching_constraint(lb); rhs = c.range(0, 5); f->set_rhs_local_branching_constraint(rhs); c.note(" | local branching %d %g", lb, rhs); break;
        case 3: lam = fabs(c.rat(1, 4)); sig = fabs(c.rat(2, 4)); f->setLambda(lam); f->setSigma(sig); c.note(" | lambda %g sigma %g", lam, sig); break;
        case 4: norm = c.range(1, 2); f->setNorm(norm); c.note(" | norm %d", norm); break;
        default: ind.clear(); val.clear(); for (int i = 0; i < n; i++) if (c.chance(60)) { ind.push_back(i); val.push_back(c.chance(50) ? c.range(0, 1) : c.rat(4, 2)); } f->set_dist_to_point_obj(ind.size(), val.data(), ind.data()); c.note(" | point of %d", (int) ind.size());
      }
      if (k == 0) { f->setLambda(lam); f->setSigma(sig); f->setNorm(norm); f->set_dist_to_point_obj(ind.size(), val.data(), ind.data()); f->set_cutoff(co); }
      if (c.chance(15)) { f = new TNLP2FPNLP(Ipopt::GetRawPtr(a), f); c.note(" | copy"); c.label("copy"); }
      RefNlp r; r.n = n; r.lb = p->lb; r.ub = p->ub; r.gl = p->gl; r.gu = p->gu; r.obj = fromFunc(p->obj); for (auto &g : p->con) r.con.push_back(fromFunc(g));
      RF l1; l1.a.assign(n, 0.); for (size_t q = 0; q < ind.size(); q++) if (val[q] <= 0.1) l1.a[ind[q]] += 1; else { l1.c += 1; l1.a[ind[q]] -= 1; }
      if (pump) {
        r.obj.w = (1 - lam) * sig; r.obj.a.assign(n, 0.); r.obj.Q.assign(n * n, 0.);
        if (norm == 2) for (size_t q = 0; q < ind.size(); q++) { r.obj.Q[ind[q] * n + ind[q]] += sf * lam; r.obj.a[ind[q]] -= 2 * sf * lam * val[q]; r.obj.c += sf * lam * val[q] * val[q]; }
        else { r.obj.c = sf * lam * l1.c; for (int i = 0; i < n; i++) r.obj.a[i] = sf * lam * l1.a[i]; }
      }
      if (cut) { r.con.push_back(fromFunc(p->obj)); r.gl.push_back(-1e300); r.gu.push_back(co); } // the bound lies below the cutoff: checked apart
      if (lb) { r.con.push_back(l1); r.gl.push_back(-1e300); r.gu.push_back(rhs); }
      if (cut) { int nn, mm, nj, nh; Ipopt::TNLP::IndexStyleEnum st; f->get_nlp_info(nn, mm, nj, nh, st); c.check(mm == r.m(), "nlp-info", fmt("%d rows, expected %d", mm, r.m())); Vec<double> xl(n), xu(n), gl(mm), gu(mm); f->get_bounds_info(n, xl.data(), xu.data(), mm, gl.data(), gu.data()); double g = gu[p->m()]; c.check(g < co && g >= co - 1e-5 * (1 + fabs(co)), "cutoff-row", fmt("cutoff %.10g gives the bound %.10g", co, g)); r.gu[p->m()] = g; }
      checkTNLP(c, *f, NULL, r, anyPoint(c, *p), "pump problem");
      Vec<double> s(n), la(r.m() + 1), zl(n), zu(n); c.check(f->get_starting_point(n, true, s.data(), false, NULL, NULL, r.m(), false, la.data()), "nlp-start", "fails"); for (int i = 0; i < n; i++) c.check(s[i] == p->x0[i], "nlp-start", fmt("x%d", i));
      c.check(t->protocol.empty(), "callback-contract", t->protocol);
      if (pump || cut || lb) c.nontrivial();
      // the solution reaches the wrapped problem without the added rows
      Vec<double> xs = anyPoint(c, *p), gs(r.m()), zz(n, .5); for (auto &e : gs) e = c.rat(5, 2); f->finalize_solution(Ipopt::SUCCESS, n, xs.data(), zz.data(), zz.data(), r.m(), gs.data(), gs.data(), 1.5, NULL, NULL);
      for (int i = 0; i < n; i++) c.check(a->x_sol()[i] == xs[i], "nlp-solution", fmt("x%d", i)); for (int j = 0; j < p->m(); j++) c.check(a->g_sol()[j] == gs[j] && a->duals_sol()[2 * n + j] == gs[j], "nlp-solution", fmt("row %d", j));
    }
  });
}
static Reg r15({"P15", pumpNlp, 150000, 2000000, 20, 50, 0.3, "random MINLP x random sequences of distance objective, norm, weights, cutoff and local-branching rows, copies: all functions compared after every operation; non-trivial: an objective or a row was replaced or added", 60, 600});
