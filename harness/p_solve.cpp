// Whole-solver properties: what branch-and-bound reports to the user.
#include "prob.hpp"
#include <csignal>
#include <cfloat>
using namespace pbt;

static void note(Case &c, const Prob &p, const Opts &o) { c.note("%s || %s", p.str().c_str(), o.str().c_str()); }
static bool closeTo(double a, double b, double t = 1e-4) { return fabs(a - b) <= t * (1 + fabs(b)); }
static std::string S(int v) { return std::to_string(v); }

// ---- option generators: each option is left at its default half of the time
static void optTree(Case &c, Opts &o) {
  if (c.chance(50)) o.set("bonmin.node_comparison", c.pick({"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess"}));
  if (c.chance(60)) o.set("bonmin.tree_search_strategy", c.pick({"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"}));
  if (c.chance(30)) o.set("bonmin.max_dive_depth", S(c.range(0, 4)));
  if (c.chance(30)) o.set("bonmin.max_backtracks_in_dive", S(c.range(0, 3)));
  if (c.chance(25)) o.set("bonmin.stop_diving_on_cutoff", "yes");
}
static void optBranch(Case &c, Opts &o) {
  if (c.chance(60)) o.set("bonmin.variable_selection", c.pick({"strong-branching", "reliability-branching", "most-fractional", "qp-strong-branching", "lp-strong-branching", "nlp-strong-branching", "osi-strong", "random"}));
  bool mf = !o.o.empty() && o.o.back().second == "most-fractional"; // this strategy sets the two next options itself
  if (!mf && c.chance(30)) o.set("bonmin.number_strong_branch", S(c.range(0, 4)));
  if (!mf && c.chance(30)) o.set("bonmin.number_before_trust", S(c.range(0, 3)));
  if (c.chance(20)) o.set("bonmin.number_look_ahead", S(c.range(0, 4)));
  if (c.chance(20)) o.set("bonmin.number_before_trust_list", S(c.range(0, 3)));
  if (c.chance(20)) o.set("bonmin.candidate_sort_criterion", c.pick({"best-ps-cost", "worst-ps-cost", "most-fractional", "least-fractional"}));
  if (c.chance(20)) o.set("bonmin.setup_pseudo_frac", c.pick({"0", "0.5", "1"}));
  if (c.chance(20)) o.set("bonmin.maxmin_crit_no_sol", c.pick({"0", "0.5", "1"}));
  if (c.chance(20)) o.set("bonmin.maxmin_crit_have_sol", c.pick({"0", "0.5", "1"}));
  if (c.chance(20)) o.set("bonmin.min_number_strong_branch", S(c.range(0, 3)));
  if (c.chance(20)) o.set("bonmin.number_strong_branch_root", S(c.range(0, 3)));
  if (c.chance(20)) o.set("bonmin.trust_strong_branching_for_pseudo_cost", "no");
}
static void optNlp(Case &c, Opts &o) {
  if (c.chance(25)) o.set("bonmin.warm_start", c.pick({"none", "optimum", "interior_point", "fake_basis"}));
  if (c.chance(15)) o.set("bonmin.num_resolve_at_root", S(c.range(0, 2)));
  if (c.chance(15)) o.set("bonmin.num_resolve_at_node", S(c.range(0, 2)));
  if (c.chance(15)) o.set("bonmin.num_resolve_at_infeasibles", S(c.range(0, 2)));
  if (c.chance(15)) o.set("bonmin.num_retry_unsolved_random_point", S(c.range(0, 2)));
  if (c.chance(15)) o.set("bonmin.random_point_type", "Jon");
  if (c.chance(15)) o.set("bonmin.random_generator_seed", S(c.range(0, 99)));
  bool mf = false; for (auto &kv : o.o) if (kv.second == "most-fractional" && kv.first == "bonmin.variable_selection") mf = true; // Cbc's own branching cannot branch on an infeasible node
  if (!mf && c.chance(15)) o.set("bonmin.max_consecutive_infeasible", S(c.range(0, 3)));
  if (c.chance(10)) o.set("bonmin.max_random_point_radius", c.pick({"1", "10"}));
  if (c.chance(10)) o.set("bonmin.resolve_on_small_infeasibility", c.pick({"1e-6", "1e-2"}));
  if (c.chance(10)) o.set("bonmin.dynamic_def_cutoff_decr", "yes");
}
static void optOa(Case &c, Opts &o, const Prob &p) {
  if (c.chance(25)) o.set("bonmin.add_only_violated_oa", "yes");
  if (c.chance(25)) o.set("bonmin.oa_cuts_scope", "local");
  // Benders cuts: only where the subproblems stay feasible and the objective is nonlinear, see known finding K03
  bool benders = !p.obj.linear();
  for (auto &f : p.con) if (!f.linear()) benders = false;
  if (benders && c.chance(20)) o.set("bonmin.feas_check_cut_types", "Benders");
  if (c.chance(20)) o.set("bonmin.feas_check_discard_policy", c.pick({"detect-cycles", "keep-all"}));
  if (benders && c.chance(15)) o.set("bonmin.generate_benders_after_so_many_oa", S(c.range(0, 5)));
  if (c.chance(20)) o.set("bonmin.ecp_max_rounds", S(c.range(0, 6)));
  if (c.chance(15)) o.set("bonmin.ecp_probability_factor", c.pick({"-1", "1", "100"}));
  if (c.chance(15)) o.set("bonmin.filmint_ecp_cuts", S(c.range(0, 3)));
  if (c.chance(15)) o.set("bonmin.oa_decomposition", "yes");
  if (c.chance(15)) o.set("bonmin.num_cut_passes", S(c.range(0, 5)));
  if (c.chance(15)) o.set("bonmin.milp_strategy", c.pick({"find_good_sol", "solve_to_optimality"}));
  for (const char *k : {"Gomory_cuts", "mir_cuts", "2mir_cuts", "cover_cuts", "clique_cuts", "flow_cover_cuts", "reduce_and_split_cuts", "lift_and_project_cuts"})
    if (c.chance(10)) o.set(std::string("bonmin.") + k, c.pick({"0", "-5", "1", "-1"}));
  if (c.chance(15)) o.set("bonmin.nlp_solve_frequency", S(c.range(0, 3)));
  if (c.chance(15)) o.set("bonmin.nlp_solve_max_depth", S(c.range(0, 10)));
  if (c.chance(15)) o.set("bonmin.nlp_solves_per_depth", c.pick({"0", "1e-10", "2", "1e100"}));
  if (c.chance(15)) o.set("bonmin.num_cut_passes_at_root", S(c.range(1, 8)));
  if (c.chance(10)) o.set("bonmin.oa_rhs_relax", c.pick({"0", "1e-6"}));
  if (c.chance(10)) o.set("bonmin.ecp_abs_tol", c.pick({"0", "1e-8", "1e-4"}));
  if (c.chance(10)) o.set("bonmin.ecp_rel_tol", c.pick({"0.1", "1e-3"}));
}
static const char *HEUR[] = {"pump_for_minlp", "heuristic_RINS", "heuristic_feasibility_pump", "heuristic_dive_fractional", "heuristic_dive_vectorLength",
                             "heuristic_dive_MIP_fractional", "heuristic_dive_MIP_vectorLength", "MILP_rounding_heuristic"};
static void optHeur(Case &c, Opts &o, int pct) {
  for (const char *k : HEUR) if (c.chance(pct)) o.set(std::string("bonmin.") + k, "yes");
  if (c.chance(20)) o.set("bonmin.feasibility_pump_objective_norm", c.pick({"1", "2"}));
  if (c.chance(20)) o.set("bonmin.fp_pass_infeasible", c.pick({"no", "yes"}));
}
static void algo(Case &c, Opts &o, int al) {
  o.set("bonmin.algorithm", ALGOS[al]);
  if (al >= 2 && al <= 4) o.set("bonmin.number_before_trust", "0"); // known finding K01
}
static ProbP genSolve(Case &c, GenOpt &g, int al) {
  if (g.mixed) { g.maxN = 4; g.maxPts = 40; g.maxM = 2; }
  else if (c.chance(20)) { g.maxN = 8; g.maxPts = 4000; g.boundInt = 3; g.maxM++; } // deeper trees
  g.allowFree = al == 0; if (al != 0) g.allowInf = false; // known finding K02
  return genProb(c, g);
}
static Oracle oracle(Case &c, const Prob &p, bool mixed) {
  Oracle r = mixed ? mixedOracle(p) : bruteForce(p);
  if (!r.decided) c.discard();
  return r;
}
static void common(Case &c, const Prob &p, const Opts &o, const Oracle &ref, const Outcome &r, bool mixed) {
  c.label(std::string("algo:") + o.o[0].second); c.label(mixed ? "mixed" : "pure"); c.label(ref.feasible ? "feasible" : "infeasible");
  if (p.con.size()) c.label("constrained");
  if (r.nodes > 0) c.label("branched");
  if (c.verbose) printf("status %s obj %.10g bound %.10g ref %d %.10g nodes %d\n", statusName(r.status), r.obj, r.bound, ref.feasible, ref.best, r.nodes);
  if (getenv("PBT_THREWFAIL")) c.check(!r.threw, "threw", r.exc); // to look at what is inconclusive
  if (r.threw) c.inconclusive(o.o[0].second + ":" + r.exc);
}
static void expectOptimum(Case &c, const Prob &p, const Oracle &ref, const Outcome &r) {
  if (!ref.feasible) {
    c.check(r.status == S_INFEASIBLE, "infeasible-not-reported", fmt("status %s on an infeasible problem", statusName(r.status)));
    return;
  }
  if (r.status == S_INFEASIBLE && ipoptSaysInfeasible(p)) c.inconclusive("Ipopt itself calls the feasible relaxation infeasible");
  c.check(r.status == S_SUCCESS, "not-solved", fmt("status %s on a feasible problem with optimum %.10g", statusName(r.status), ref.best));
  c.check(closeTo(r.obj, ref.best), "wrong-optimum", fmt("reported optimum %.10g, true optimum %.10g", r.obj, ref.best));
}

// ---- P02: optimum on convex problems, any algorithm
static void optimum(Case &c) {
  GenOpt g; g.mixed = c.chance(30); g.allowInf = true;
  int al = (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  if (!ref.feasible) c.discard();
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  expectOptimum(c, *p, ref, r);
  c.nontrivial();
}
static Reg r02({"P02", optimum, 5000, 50000, 20, 1, 0.2, "random convex MINLP (1-4 variables) x one of the six algorithms; non-trivial: feasible, solved, optimum compared with exhaustive enumeration of the integer assignments", 150, 1500});

// ---- P07: search configuration does not change the optimum
static void config(Case &c) {
  GenOpt g; g.mixed = c.chance(25); g.allowInf = true; g.maxN = 5;
  int al = c.chance(40) ? 0 : (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  if (al == 0) { optTree(c, o); optBranch(c, o); optNlp(c, o); } else { optTree(c, o); optOa(c, o, *p); }
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  expectOptimum(c, *p, ref, r);
  if (r.nodes > 0 && o.o.size() > 2) c.nontrivial();
}
static Reg r07({"P07", config, 5000, 50000, 20, 1, 0.2, "random convex MINLP x random tree-search, branching, NLP and cut options; non-trivial: at least two options off their default and the tree search branched", 150, 1500});

// ---- shared option pool: any search configuration that is valid for the algorithm
static void anyConfig(Case &c, Opts &o, int al, const Prob &p) {
  optTree(c, o);
  if (al == 0) { optBranch(c, o); optNlp(c, o); } else optOa(c, o, p);
}
static void maybeConfig(Case &c, Opts &o, int al, const Prob &p) { if (c.chance(50)) anyConfig(c, o, al, p); }
static void optLimits(Case &c, Opts &o) {
  switch (c.draw(5)) {
    case 0: case 1: o.set("bonmin.node_limit", S(c.range(0, 12))); break;
    case 2: o.set("bonmin.solution_limit", S(c.range(1, 2))); break;
    case 3: o.set("bonmin.iteration_limit", S(c.range(0, 60))); break;
    default: o.set("bonmin.node_limit", S(c.range(0, 3))); o.set("bonmin.solution_limit", S(c.range(1, 2)));
  }
}

// ---- P01: whatever is reported as a solution is one
static void reported(Case &c) {
  GenOpt g; g.mixed = c.chance(40); g.allowInf = true; g.allowNonconvex = true; g.maxN = 6; g.maxM = 4; g.maxPts = 20000;
  int al = c.chance(50) ? 0 : (int) c.draw(6);
  if (al != 0) g.allowNonconvex = false;
  if (al != 0) g.allowInf = false;
  g.allowFree = al == 0;
  ProbP p = genProb(c, g);
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  if (c.chance(35)) optHeur(c, o, 25);
  if (c.chance(40)) optLimits(c, o);
  if (c.chance(20)) o.set("bonmin.integer_tolerance", "1e-7");
  if (c.chance(15)) o.set("bonmin.nlp_failure_behavior", "fathom");
  note(c, *p, o);
  SolveCtl ctl; ctl.evalLimit = 300000;
  Outcome r = solveBonmin(p, o, &ctl);
  c.label(std::string("algo:") + o.o[0].second); c.label(std::string("status:") + statusName(r.status)); c.label(p->convex ? "convex" : "nonconvex");
  if (r.threw) c.inconclusive(o.o[0].second + ":" + r.exc);
  checkReported(c, *p, r);
  if (r.hasSol && !o.o.empty()) c.nontrivial();
}
static Reg r01({"P01", reported, 7000, 70000, 20, 1, 0.2, "random MINLP (convex or, for B-BB, nonconvex; 1-6 variables) x algorithm x search options, heuristics and limits; non-trivial: a solution was reported and re-evaluated independently", 150, 1500});

// ---- P03: infeasible problems are reported as such, feasible ones never
static void makeInfeasible(Case &c, Prob &p) {
  // tighten one constraint until no integer point satisfies all of them
  if (p.con.empty()) {
    Func f; f.n = p.n; f.a.assign(p.n, 0.); for (int i = 0; i < p.n; i++) f.a[i] = c.range(1, 3);
    p.con.push_back(f); p.gl.push_back(-DBL_MAX); p.gu.push_back(DBL_MAX);
  }
  size_t j = c.draw(p.con.size());
  bool upper = p.gu[j] < 1e100 || p.gl[j] < -1e100, lin = p.con[j].linear();
  if (lin && c.chance(50)) upper = !upper;
  if (!lin && p.gl[j] > -1e100) upper = false; // concave constraint
  p.gl[j] = -DBL_MAX; p.gu[j] = DBL_MAX;
  double best = 1e300, sgn = upper ? 1 : -1; std::vector<double> x = p.elb; int n = p.n;
  for (;;) {
    if (p.violation(x.data()) <= 1e-9) best = std::min(best, sgn * p.con[j].eval(x.data()));
    int i = 0; while (i < n && ++x[i] > p.eub[i] + 0.5) { x[i] = p.elb[i]; i++; }
    if (i == n) break;
  }
  if (best > 1e200) return; // infeasible already
  double d = c.pick(std::vector<double>{0.05, 0.2, 0.5, 1, 3, 20});
  if (upper) p.gu[j] = best - d; else p.gl[j] = -(best - d);
}
static void infeasible(Case &c) {
  GenOpt g; g.mixed = false; g.maxN = 5; g.maxPts = 1200; g.wantInfeasible = true; g.allowInf = false;
  int al = (int) c.draw(6);
  ProbP p = genProb(c, g);
  makeInfeasible(c, *p);
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  if (c.chance(20)) optHeur(c, o, 20);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, false);
  if (ref.feasible) c.discard();
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, false);
  checkReported(c, *p, r);
  c.check(r.status == S_INFEASIBLE, "infeasible-not-reported", fmt("status %s on an infeasible problem", statusName(r.status)));
  c.check(r.bound > 1e50, "infeasible-bound", fmt("bound %g on an infeasible problem", r.bound));
  std::vector<double> y; double v; int rel = refNlp(*p, p->lb, p->ub, v, y);
  c.label(rel == 0 ? "relaxation-feasible" : "relaxation-infeasible");
  if (rel == 0) c.nontrivial();
}
static Reg r03({"P03", infeasible, 5000, 50000, 20, 1, 0.2, "convex MINLP without integer-feasible point (one constraint tightened by enumeration) x algorithm x options; non-trivial: the continuous relaxation is feasible, so that only the search can prove it", 150, 1500});

// ---- P04: the best bound is a valid lower bound, whenever the search stops
static void bound(Case &c) {
  GenOpt g; g.mixed = c.chance(25); g.allowInf = true; g.maxN = 5;
  int al = c.chance(50) ? 0 : (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  bool lim = c.chance(75); if (lim) optLimits(c, o);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  c.label(std::string("status:") + statusName(r.status));
  if (!ref.feasible) return;
  double t = 1e-4 * (1 + fabs(ref.best));
  c.check(r.bound <= ref.best + t, "bound-above-optimum", fmt("bound %.10g, optimum %.10g (status %s)", r.bound, ref.best, statusName(r.status)));
  if (r.hasSol) c.check(r.obj >= ref.best - t, "objective-below-optimum", fmt("objective %.10g, optimum %.10g", r.obj, ref.best));
  if (r.status == S_SUCCESS || r.status == S_LIMIT) c.check(r.contRel <= ref.best + t, "relaxation-above-optimum", fmt("continuousRelaxation() %.10g, optimum %.10g", r.contRel, ref.best));
  if (r.status == S_SUCCESS) c.check(r.bound >= r.obj - 10 * t, "gap-left-open", fmt("SUCCESS with bound %.10g and objective %.10g", r.bound, r.obj));
  if (r.status == S_LIMIT) c.nontrivial();
}
static Reg r04({"P04", bound, 7000, 70000, 20, 1, 0.2, "random convex MINLP x algorithm x options x node/solution/iteration limit; non-trivial: the limit stopped the search before the end, bound compared with the enumerated optimum", 150, 1500});

// ---- P05: limits are respected and the status tells the truth
static void limits(Case &c) {
  GenOpt g; g.mixed = c.chance(25); g.allowInf = true; g.maxN = 6; g.maxM = 3; g.maxPts = 4000; g.boundInt = 6;
  int al = c.chance(50) ? 0 : (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  int nl = -1, sl = -1, il = -1; double tl = -1;
  switch (c.draw(5)) {
    case 0: case 1: nl = c.range(0, 15); o.set("bonmin.node_limit", S(nl)); break;
    case 2: sl = c.range(0, 3); o.set("bonmin.solution_limit", S(sl)); break;
    case 3: il = c.range(0, 80); o.set("bonmin.iteration_limit", S(il)); break;
    default: { static const char *T[] = {"0.0001", "0.001", "0.01", "0.05"}; int k = (int) c.draw(4); tl = atof(T[k]); o.set("bonmin.time_limit", T[k]); }
  }
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  c.label(std::string("status:") + statusName(r.status)); c.label(nl >= 0 ? "nodes" : sl >= 0 ? "solutions" : il >= 0 ? "iterations" : "time");
  if (r.status == S_SUCCESS || r.status == S_INFEASIBLE) expectOptimum(c, *p, ref, r);
  else {
    c.check(r.status == S_LIMIT, "dishonest-status", fmt("status %s with only a limit set", statusName(r.status)));
    c.check(sl != 0 && il != 0, "limit-zero", "a limit of 0 on solutions or iterations is documented to mean none, but the search was stopped");
    c.nontrivial();
  }
  if (nl >= 0) c.check(r.nodes <= nl + 1, "node-limit-ignored", fmt("%d nodes with a limit of %d", r.nodes, nl));
}
static Reg r05({"P05", limits, 6000, 60000, 20, 1, 0.2, "random convex MINLP x algorithm x options x one limit (nodes, solutions, iterations, time); non-trivial: the limit stopped the search", 150, 1500});

// ---- P06: cutoff and gap options mean what they say
static void cutoff(Case &c) {
  GenOpt g; g.mixed = c.chance(20); g.maxN = 5;
  int al = (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  Oracle ref = oracle(c, *p, g.mixed);
  if (!ref.feasible) c.discard();
  int what = (int) c.draw(6);
  double slack = 0, cut = 1e300, fg = 0;
  bool tight = !g.mixed && ref.second < 1e200 && ref.second > ref.best + 0.02; double sec = tight ? ref.second - ref.best : 0; // second best value: with a gap below it only the optimum is acceptable
  auto absGap = [&]() { return tight && c.chance(60) ? sec * c.pick(std::vector<double>{0.3, 0.6, 0.9}) : c.pick(std::vector<double>{0.25, 1, 5}); };
  auto fracGap = [&]() { double m = std::max(fabs(ref.best), fabs(ref.second)); return tight && m > 0.5 && c.chance(60) ? std::min(0.4, sec / m * c.pick(std::vector<double>{0.3, 0.6, 0.85})) : c.pick(std::vector<double>{0.05, 0.3}); };
  if (what == 0) { double d = c.pick(std::vector<double>{0.05, 0.5, 3, 50}); cut = ref.best + d; o.set("bonmin.cutoff", fmt("%.10g", cut)); }
  else if (what == 1) { double d = c.pick(std::vector<double>{0.05, 0.5, 3}); cut = ref.best - d; o.set("bonmin.cutoff", fmt("%.10g", cut)); }
  else if (what == 2) { slack = absGap(); o.set("bonmin.allowable_gap", fmt("%g", slack)); }
  else if (what == 3) { fg = fracGap(); o.set("bonmin.allowable_fraction_gap", fmt("%g", fg)); }
  else if (what == 4) { slack = absGap(); fg = fracGap(); o.set("bonmin.allowable_gap", fmt("%g", slack)); o.set("bonmin.allowable_fraction_gap", fmt("%g", fg)); }
  else { // the LP-based algorithms take the decrement relative to the value; a negative one is meant for B-BB
    double d = al == 0 && c.chance(25) ? -1 : absGap(); if (al != 0) d = std::min(d, 0.1); slack = std::max(0., d); if (al != 0) fg = slack; o.set("bonmin.cutoff_decr", fmt("%g", d)); }
  maybeConfig(c, o, al, *p);
  note(c, *p, o);
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  static const char *W[] = {"cutoff-above", "cutoff-below", "allowable_gap", "allowable_fraction_gap", "both gaps", "cutoff_decr"};
  c.label(W[what]); if (tight) c.label("gap scale known");
  if (what == 1) { c.check(!r.hasSol && r.status == S_INFEASIBLE, "cutoff-ignored", fmt("status %s, objective %.10g although the cutoff %.10g is below the optimum %.10g", statusName(r.status), r.obj, cut, ref.best)); c.nontrivial(); return; }
  c.check(r.status == S_SUCCESS, "not-solved", fmt("status %s, optimum %.10g", statusName(r.status), ref.best));
  slack = (what == 5 && al != 0 ? slack : 0) + std::max(slack, fg * std::max(fabs(r.obj), fabs(ref.best)) / (1 - fg)); // Cbc measures the fraction against the larger of value and bound
  double t = 1e-4 * (1 + fabs(ref.best));
  c.check(r.obj <= ref.best + slack + t && r.obj >= ref.best - t, "gap-exceeded", fmt("objective %.10g, optimum %.10g, allowed gap %g", r.obj, ref.best, slack));
  if (slack > 0 || r.nodes > 0) c.nontrivial();
}
static Reg r06({"P06", cutoff, 5000, 50000, 20, 1, 0.2, "feasible convex MINLP x algorithm x cutoff above/below the enumerated optimum or an absolute/relative gap; non-trivial: cutoff below the optimum, a gap, or a search that branched", 150, 1500});

// ---- P08: SOS1 constraints and branching information
static void sos(Case &c) {
  GenOpt g; g.mixed = c.chance(30); g.allowSos = true; g.maxN = 7; g.maxM = 2; g.boundInt = c.range(1, 3);
  int al = 0; // the other algorithms: known finding K04, and the feasibility pump refuses sets
  ProbP p = genSolve(c, g, al);
  if (p->sos.empty()) c.discard();
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  Outcome r = solveBonmin(p, o);
  common(c, *p, o, ref, r, g.mixed);
  checkReported(c, *p, r);
  expectOptimum(c, *p, ref, r);
  Prob q = *p; q.sos.clear();
  Oracle rel = g.mixed ? mixedOracle(q) : bruteForce(q);
  if (rel.decided && rel.feasible && (!ref.feasible || ref.best > rel.best + 1e-3)) c.nontrivial();
}
static Reg r08({"P08", sos, 5000, 50000, 20, 1, 0.2, "random convex MINLP with one or two, possibly overlapping, SOS1 sets of integer variables x B-BB with random options; non-trivial: the sets change the optimum", 150, 1500});

// ---- P18: heuristics keep the optimum
static void heur(Case &c) {
  GenOpt g; g.mixed = c.chance(30); g.maxN = 5; if (c.chance(40)) g.maxM = 6;
  int al = c.chance(50) ? 0 : (int) c.draw(6);
  ProbP p = genSolve(c, g, al);
  Opts o; algo(c, o, al);
  optHeur(c, o, 30);
  if (o.o.size() < 2 || o.o.back().first == "bonmin.number_before_trust") o.set(std::string("bonmin.") + HEUR[c.draw(8)], "yes");
  maybeConfig(c, o, al, *p);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, g.mixed);
  std::vector<HeurRec> rec; SolveCtl ctl; ctl.heur = &rec;
  Outcome r = solveBonmin(p, o, &ctl);
  common(c, *p, o, ref, r, g.mixed);
  for (auto &h : rec) { // what a heuristic calls a solution is one
    c.label("solution of " + h.id);
    for (int i = 0; i < p->n; i++) c.check(!p->isInt(i) || fabs(h.x[i] - floor(h.x[i] + .5)) <= 1e-5, "heuristic-not-integer", fmt("%s hands over x%d=%.10g", h.id.c_str(), i, h.x[i]));
    double sc = 1; for (int j = 0; j < p->m(); j++) for (double b : {p->gl[j], p->gu[j]}) if (fabs(b) < 1e100) sc = std::max(sc, fabs(b));
    double v = p->violation(h.x.data()), f = p->obj.eval(h.x.data());
    c.check(v <= 1e-5 * sc, "heuristic-infeasible", fmt("%s hands over a point that violates the constraints by %g", h.id.c_str(), v));
    c.check(fabs(f - h.after) <= 1e-4 * (1 + fabs(f)), "heuristic-objective", fmt("%s hands over a point of value %.10g as %.10g", h.id.c_str(), f, h.after));
    c.check(h.after <= h.before + 1e-6 * (1 + fabs(h.before)), "heuristic-worse", fmt("%s hands over the value %.10g, asked to improve on %.10g", h.id.c_str(), h.after, h.before));
  }
  checkReported(c, *p, r);
  expectOptimum(c, *p, ref, r);
  if (ref.feasible) c.nontrivial();
}
static Reg r18({"P18", heur, 5000, 50000, 20, 1, 0.2, "random convex MINLP x algorithm x random subset of the primal heuristics; non-trivial: feasible problem, optimum compared with enumeration", 150, 1500});

// ---- known findings: one fixed input each, outside the generated domains (see known_findings.txt)
struct Mk {
  ProbP P; Mk() : P(new Prob) {}
  Mk &var(int t, double l, double u, double s) { P->type.push_back(t); P->lb.push_back(l); P->ub.push_back(u); P->elb.push_back(std::max(l, -20.)); P->eub.push_back(std::min(u, 20.)); P->x0.push_back(s); P->n++; return *this; }
  Func f(double c0, std::vector<double> a, std::vector<Term> t) { Func f; f.n = P->n; f.c0 = c0; f.a = a; f.a.resize(P->n, 0.); f.t = t; return f; }
  Mk &con(double l, double u, Func g) { P->con.push_back(g); P->gl.push_back(l); P->gu.push_back(u); return *this; }
};
// ---- P10: the contract of the user's callbacks
static void callbacks(Case &c) {
  GenOpt g; g.mixed = c.chance(40); g.maxN = 5; g.allowInf = true; g.allowNonconvex = true; g.maxPts = 20000;
  int al = c.chance(30) ? 0 : (int) c.draw(6);
  if (al != 0) { g.allowNonconvex = false; g.allowInf = false; }
  ProbP p = genProb(c, g);
  Opts o; algo(c, o, al);
  maybeConfig(c, o, al, *p);
  if (c.chance(40)) optHeur(c, o, 25);
  if (c.chance(30)) optLimits(c, o);
  note(c, *p, o);
  SolveCtl ctl; ctl.evalLimit = 300000;
  Outcome r = solveBonmin(p, o, &ctl);
  c.label(std::string("algo:") + o.o[0].second);
  c.check(r.protocol.empty(), "callback-contract", r.protocol);
  if (r.threw) c.inconclusive(o.o[0].second + ":" + r.exc);
  if (r.evals > 20 && r.nFalse > 0) c.nontrivial();
}
static Reg r10({"P10", callbacks, 7000, 70000, 20, 1, 0.2, "random MINLP x algorithm x search options, heuristics and limits, with a problem that checks every callback; non-trivial: more than 20 evaluations, some of them with new_x false", 150, 1500});


// ---- P19: solves in one process do not disturb each other
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
static const bool SHARED = getenv("PBT_SHARED") != NULL;
static void sessions(Case &c) {
  struct PS { ProbP p; Oracle ref; int al; };
  struct Ses { std::unique_ptr<Bonmin::BonminSetup> b; Ipopt::SmartPtr<GenTMINLP> t; int prob; int copies = 0, parent = -1, solved = 0; bool copy = false; };
  bool heur = c.chance(30); std::vector<PS> ps; std::vector<Ses> ss; int al0 = (int) c.draw(5), np = c.range(1, 3);
  for (int k = 0; k < np; k++) {
    PS q; q.al = c.chance(60) ? al0 : (int) c.draw(5); GenOpt g; g.allowInf = q.al == 0 && !heur; q.p = genSolve(c, g, q.al); q.ref = oracle(c, *q.p, false); ps.push_back(q);
    c.note("[%d] %s %s\n", k, ALGOS[q.al], q.p->str().c_str());
  }
  Bonmin::Bab shared; int steps = c.range(2, 7), solves = 0; 
  std::vector<std::string> optsOf(np);
  for (int k = 0; k < np; k++) { Opts o; if (c.chance(40)) anyConfig(c, o, ps[k].al, *ps[k].p); for (auto &kv : o.o) optsOf[k] += kv.first + " " + kv.second + "\n"; if (heur) { Opts h; optHeur(c, h, 15); for (auto &kv : h.o) optsOf[k] += kv.first + " " + kv.second + "\n"; } c.note("options %d: %s", k, optsOf[k].c_str()); }
  auto solve = [&](int i, bool sh) {
    Ses &z = ss[i]; PS &q = ps[z.prob]; Outcome r; Bonmin::Bab own; Bonmin::Bab &bb = sh ? shared : own; size_t nf = z.t->fins.size();
    c.note("solve %d with %s Bab; ", i, sh ? "the shared" : "a new");
    try {
      bb(*z.b);
      r.fins.assign(z.t->fins.begin() + nf, z.t->fins.end()); c.check(!r.fins.empty(), "finalize-count", "finalize_solution was not called");
      r.status = r.fins.back().status; r.hasSol = bb.bestSolution() != NULL; if (r.hasSol) r.x.assign(bb.bestSolution(), bb.bestSolution() + q.p->n);
      r.obj = bb.bestObj(); r.bound = bb.bestBound(); r.nodes = bb.numNodes();
    } catch (Bonmin::TNLPSolver::UnsolvedError *) { c.inconclusive("UnsolvedError"); }
    catch (CoinError &e) { c.inconclusive(std::string(ALGOS[q.al]) + ":" + e.message()); }
    checkReported(c, *q.p, r); expectOptimum(c, *q.p, q.ref, r); solves++; z.solved++;
  };
  for (int s = 0; s < steps; s++) {
    int op = ss.empty() ? 0 : (int) c.draw(8);
    if (op <= 1 && ss.size() < 5) {
      Ses z; z.prob = (int) c.draw(np); PS &q = ps[z.prob];
      bool shareT = false; for (auto &o : ss) if (o.prob == z.prob && c.chance(30)) { z.t = o.t; shareT = true; }
      if (!shareT) z.t = new GenTMINLP(q.p);
      z.b.reset(new Bonmin::BonminSetup); z.b->initializeOptionsAndJournalist();
      Opts o; algo(c, o, q.al); std::string t = getenv("PBT_EXTRA") ? getenv("PBT_EXTRA") : ""; t += "\nprint_level 0\nsb yes\nbonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\n";
      for (auto &kv : o.o) t += kv.first + " " + kv.second + "\n";
      z.b->readOptionsString(t + optsOf[z.prob]);
      try { z.b->initialize(GetRawPtr(z.t)); } catch (Bonmin::TNLPSolver::UnsolvedError *) { c.inconclusive("UnsolvedError"); }
      c.note("setup %d for [%d]%s; ", (int) ss.size(), z.prob, shareT ? " on the same problem object" : ""); c.label(std::string("algo:") + ALGOS[q.al]);
      ss.push_back(std::move(z));
    } else if (op == 2 && ss.size() < 6) {
      int i = (int) c.draw(ss.size()); Ses z; z.prob = ss[i].prob; z.t = ss[i].t; z.copy = true; z.parent = i; ss[i].copies++;
      z.b.reset(new Bonmin::BonminSetup(*ss[i].b));
      c.note("setup %d is a copy of %d; ", (int) ss.size(), i); c.label("copied"); ss.push_back(std::move(z));
    } else { int i = (int) c.draw(ss.size()); if (ss[i].solved) c.label("solved again"); solve(i, SHARED && c.chance(40)); }
  }
  if (!solves && !ss.empty()) solve((int) c.draw(ss.size()), false);
  if (solves > 1) c.nontrivial();
  while (!ss.empty()) ss.pop_back(); // copies before what they were copied from
}
static Reg r19({"P19", sessions, 2000, 20000, 30, 1, 0.2, "histories of creating, copying and solving setups, with fresh and reused solver objects, sharing problems; every solve compared with enumeration; non-trivial: two or more solves", 150, 1500});

// ---- P25: an interruption by the user at any evaluation
static void interrupted(Case &c) {
  GenOpt g; int al = (int) c.draw(6); bool mixed = c.chance(20), heur = c.chance(20); g.mixed = mixed; g.allowInf = al == 0 && !heur && !mixed;
  ProbP p = genSolve(c, g, al); Opts o; algo(c, o, al); maybeConfig(c, o, al, *p); if (heur) optHeur(c, o, 25);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, mixed);
  Outcome a = solveBonmin(p, o);
  common(c, *p, o, ref, a, mixed); expectOptimum(c, *p, ref, a);
  long span = a.evals - a.initEvals; if (span < 1) c.discard();
  long at = 1 + (long) c.draw(span), sig = 0, now = 0; c.note(" || SIGINT at evaluation %ld of %ld", at, span);
  SolveCtl k; k.arm = [&](GenTMINLP *t) { long b = t->hook.count; sig = b + at; t->hook.sigAt = sig; };
  Outcome r = solveBonmin(p, o, &k); now = r.evals - sig;
  if (now < 0) { c.label("signal not reached"); common(c, *p, o, ref, r, mixed); expectOptimum(c, *p, ref, r); return; }
  c.nontrivial(); c.label(r.threw ? "stopped:" + r.exc.substr(0, 20) : std::string("stopped:") + statusName(r.status)); c.label(std::string("algo:") + ALGOS[al]);
  if (getenv("PBT_TRACE")) fprintf(stderr, "after %ld of %ld\n", now, span);
  if (!r.threw) {
    common(c, *p, o, ref, r, mixed); checkReported(c, *p, r);
    if (r.hasSol) c.label("incumbent kept");
    c.check(r.status != S_LIMIT && r.status != S_ERROR && r.status != S_UNBOUNDED, "interrupt-status", fmt("status %s after an interruption without any limit set", statusName(r.status)));
    if (r.status == S_SUCCESS || r.status == S_INFEASIBLE) expectOptimum(c, *p, ref, r);
    if (ref.feasible && r.status == S_INTERRUPT) c.check(r.bound <= ref.best + 1e-4 * (1 + fabs(ref.best)), "interrupt-bound", fmt("bound %.10g reported, optimum %.10g", r.bound, ref.best));
  }
  c.check(now <= 50000, "interrupt-ignored", fmt("%ld evaluations after the interruption", now));
  Outcome z = solveBonmin(p, o); c.note(" || next solve");
  common(c, *p, o, ref, z, mixed); expectOptimum(c, *p, ref, z);
}
static Reg r25({"P25", interrupted, 2500, 25000, 30, 1, 0.2, "random convex MINLP x algorithm x options, interrupted (SIGINT) at a uniformly drawn evaluation of the search, then solved again; non-trivial: the signal was delivered", 150, 1500});

// ---- P22: problems without integer variables
static void continuous(Case &c) {
  GenOpt g; g.mixed = g.contOnly = true; if (c.chance(10)) { g.contOnly = false; g.maxPts = 40; } g.maxN = 4; g.maxM = 3; int al = (int) c.draw(6);
  g.allowNonconvex = false; ProbP p = genProb(c, g); Opts o; algo(c, o, al); maybeConfig(c, o, al, *p);
  bool lim = c.chance(20); if (lim) optLimits(c, o);
  if (c.chance(15)) optHeur(c, o, 20);
  bool unb = g.contOnly && c.chance(20);
  Oracle ref = oracle(c, *p, true);
  if (unb) { // a variable of the objective alone, without bound
    int i = p->n++; p->type.push_back(0); p->lb.push_back(-2); p->ub.push_back(DBL_MAX); p->elb.push_back(-2); p->eub.push_back(5); p->x0.push_back(1);
    if (!p->prio.empty()) p->prio.push_back(1); if (!p->dir.empty()) p->dir.push_back(0);
    auto wide = [&](Func &f) { f.n = p->n; f.a.resize(p->n, 0.); }; wide(p->obj); for (auto &f : p->con) wide(f);
    p->obj.a[i] = -c.range(1, 3);
  }
  note(c, *p, o);
  Outcome r = solveBonmin(p, o);
  if (unb) {
    if (r.threw) c.inconclusive(o.o[0].second + ":" + r.exc);
    c.label(std::string("unbounded:") + statusName(r.status)); c.nontrivial();
    c.check(!r.hasSol && !r.fins.empty() && !r.fins.back().hasx, "unbounded-solution", "a point is reported for an unbounded problem");
    c.check(r.status == S_UNBOUNDED || (lim && r.status == S_LIMIT) || (!ref.feasible && r.status == S_INFEASIBLE), "unbounded-status", fmt("status %s on an unbounded problem", statusName(r.status)));
    c.check(r.bound <= -1e9 || !ref.feasible || r.status == S_LIMIT, "unbounded-bound", fmt("bound %g on an unbounded problem", r.bound));
    return;
  }
  common(c, *p, o, ref, r, true); checkReported(c, *p, r);
  c.label(std::string("status:") + statusName(r.status));
  if (!lim || r.status == S_SUCCESS || r.status == S_INFEASIBLE) expectOptimum(c, *p, ref, r);
  else c.check(r.status == S_LIMIT, "dishonest-status", fmt("status %s with only a limit set", statusName(r.status)));
  if (ref.feasible) {
    double t = 1e-4 * (1 + fabs(ref.best));
    c.check(r.bound <= ref.best + t, "bound-above-optimum", fmt("bound %.10g, optimum %.10g (status %s)", r.bound, ref.best, statusName(r.status)));
    if (r.status == S_SUCCESS) c.check(r.bound >= r.obj - 10 * t, "gap-left-open", fmt("SUCCESS with bound %.10g and objective %.10g", r.bound, r.obj));
  }
  if (p->con.size() || !ref.feasible) c.nontrivial();
}
static Reg r22({"P22", continuous, 6000, 60000, 20, 1, 0.2, "random convex problem without integer variables x algorithm x options, heuristics and limits; non-trivial: it has constraints", 150, 1500});

// ---- P20: evaluations that fail
static void faults(Case &c) {
  GenOpt g; int al = getenv("PBT_LPF") ? (int) c.draw(5) : 0; bool mixed = c.chance(20), heur = c.chance(20); g.mixed = mixed; g.allowInf = al == 0 && !heur && !mixed;
  ProbP p = genSolve(c, g, al); Opts o; algo(c, o, al);
  bool fathom = c.chance(50); o.set("bonmin.nlp_failure_behavior", fathom ? "fathom" : "stop");
  if (c.chance(40)) o.set("bonmin.num_retry_unsolved_random_point", S(c.range(0, 3)));
  if (c.chance(50)) o.set("bonmin.max_consecutive_failures", S(c.range(0, 4)));
  maybeConfig(c, o, al, *p); if (heur) optHeur(c, o, 25);
  note(c, *p, o);
  Oracle ref = oracle(c, *p, mixed);
  Outcome a = solveBonmin(p, o);
  common(c, *p, o, ref, a, mixed); expectOptimum(c, *p, ref, a);
  long span = a.evals; if (span < 1) c.discard();
  int mode = 1 + (int) c.draw(2);
  if (c.chance(30)) { // the functions are defined on one side of a hyperplane only
    std::vector<double> d(p->n); double b = 0; for (int i = 0; i < p->n; i++) { d[i] = c.range(-2, 2); double l = std::max(p->lb[i], -4.), u = std::min(p->ub[i], 4.); b += d[i] * (l + (u - l) * c.range(0, 4) / 4.); }
    b += 0.3; std::string t; for (double v : d) t += fmt(" %g", v); c.note(" || functions %s where%s * x > %g", mode == 1 ? "cannot be evaluated" : "are NaN", t.c_str(), b);
    auto un = [&](const double *x) { double s = 0; for (int i = 0; i < p->n; i++) s += d[i] * x[i]; return s > b; };
    SolveCtl k; k.prep = [&](GenTMINLP *t) { t->hook.mode = mode; t->undef = un; };
    o.set("max_iter", "100"); // Ipopt creeps along the border of the domain
    Outcome r = solveBonmin(p, o, &k);
    c.nontrivial(); c.label("partly defined"); c.label("result:" + (r.threw ? r.exc.substr(0, 30) : std::string(statusName(r.status))));
    if (c.verbose) printf("status %s obj %.10g bound %.10g ref %d %.10g threw %s\n", statusName(r.status), r.obj, r.bound, ref.feasible, ref.best, r.exc.c_str());
    if (r.threw) return;
    checkReported(c, *p, r);
    if (r.hasSol) c.check(!un(r.x.data()), "undefined-point", "the point reported is one where the functions are not defined");
    return;
  }
  long at = 1 + (long) c.draw(span), len = c.pick(std::vector<long>{1, 1, 3, 10, 40, 200, 1000000000, 1000000000});
  c.note(" || evaluations %ld..+%ld of %ld %s", at, len, span, mode == 1 ? "return false" : "give NaN");
  SolveCtl k; k.prep = [&](GenTMINLP *t) { t->hook.failFrom = at; t->hook.failTo = at + len; t->hook.mode = mode; };
  Outcome r = solveBonmin(p, o, &k);
  c.nontrivial(); c.label(std::string("algo:") + ALGOS[al]); c.label(fathom ? "fathom" : "stop"); c.label(len > 1000 ? "persistent" : "transient"); c.label(mode == 1 ? "error" : "NaN");
  c.label("result:" + (r.threw ? r.exc.substr(0, 30) : std::string(statusName(r.status))));
  if (c.verbose) printf("status %s obj %.10g bound %.10g ref %d %.10g threw %s\n", statusName(r.status), r.obj, r.bound, ref.feasible, ref.best, r.exc.c_str());
  if (r.threw) return;
  checkReported(c, *p, r);
  if (fathom) return;
  if (r.status == S_SUCCESS || r.status == S_INFEASIBLE) expectOptimum(c, *p, ref, r);
  if (ref.feasible) c.check(r.bound <= ref.best + 1e-4 * (1 + fabs(ref.best)), "fault-bound", fmt("bound %.10g reported, optimum %.10g", r.bound, ref.best));
}
static Reg r20({"P20", faults, 3000, 30000, 30, 1, 0.2, "random convex MINLP x algorithm x options with a window of failing evaluations (error return or NaN) at a drawn place; non-trivial: always", 150, 1500});
// ---- P23: a second objective that values the integer solutions
static void secondObjective(Case &c) {
  GenOpt g; g.mixed = c.chance(30); g.maxN = 4; ProbP p = genSolve(c, g, 0); int n = p->n;
  Opts o; algo(c, o, 0); if (c.chance(50)) { optTree(c, o); optBranch(c, o); optNlp(c, o); }
  Func up = p->obj; int kind = (int) c.draw(4); double shift = c.range(-20, 20); // the same, shifted, above the objective, unrelated
  if (up.a.empty()) up.a.assign(n, 0.);
  if (kind == 1) up.c0 += shift;
  else if (kind == 2) { Term t; t.kind = SQ; t.w = c.range(1, 4) / 2.; t.b = c.rat(4, 2); t.d.push_back({(int) c.draw(n), 1.}); up.t.push_back(t); }
  else if (kind == 3) { up = Func(); up.n = n; up.c0 = shift; up.a.assign(n, 0.); for (auto &e : up.a) e = c.rat(4, 2); }
  note(c, *p, o); c.note(" || second objective %s", up.str().c_str());
  Oracle ref = oracle(c, *p, g.mixed);
  SolveCtl ctl; Vec2 seen; ctl.prep = [&](GenTMINLP *t) { t->hasUpper = true; t->upper = up; t->upperSeen = &seen; };
  Outcome r = solveBonmin(p, o, &ctl);
  common(c, *p, o, ref, r, g.mixed);
  static const char *K[] = {"same", "shifted", "above", "unrelated"}; c.label(std::string("second objective: ") + K[kind]);
  Prob q = *p; q.obj = seen.empty() ? p->obj : up; checkReported(c, q, r);
  if (!ref.feasible) { expectOptimum(c, *p, ref, r); return; }
  if (r.status == S_INFEASIBLE && ipoptSaysInfeasible(*p)) c.inconclusive("Ipopt itself calls the feasible relaxation infeasible");
  c.check(r.status == S_SUCCESS, "not-solved", fmt("status %s on a feasible problem", statusName(r.status)));
  c.check(r.bound <= ref.best + 1e-4 * (1 + fabs(ref.best)), "bound-above-optimum", fmt("best bound %.10g, optimum of the first objective %.10g", r.bound, ref.best));
  if (seen.empty()) { c.label("never evaluated"); return; }
  for (auto &e : seen) {
    for (int i = 0; i < n; i++) c.check(!p->isInt(i) || fabs(e.first[i] - floor(e.first[i] + .5)) < 1e-6, "second-objective-fractional", fmt("the second objective is evaluated at x%d=%.10g", i, e.first[i]));
    c.check(p->violation(e.first.data()) <= 1e-4 * (1 + fabs(p->violation(e.first.data()))), "second-objective-infeasible", fmt("the second objective is evaluated at a point that violates the constraints by %g", p->violation(e.first.data())));
    c.check(r.obj <= e.second + 1e-6 * (1 + fabs(e.second)), "second-objective-lost", fmt("reported value %.10g, a solution with second objective %.10g was found", r.obj, e.second));
  }
  double at = up.eval(ref.x.data());
  if (kind <= 1) c.check(closeTo(r.obj, ref.best + (kind ? shift : 0)), "wrong-optimum", fmt("reported optimum %.10g, true optimum %.10g", r.obj, ref.best + (kind ? shift : 0)));
  if (kind == 2) c.check(r.obj >= ref.best - 1e-4 * (1 + fabs(ref.best)), "wrong-optimum", fmt("reported value %.10g below the optimum %.10g of the first objective", r.obj, ref.best));
  // the search has to visit a unique optimum
  if (!g.mixed && ref.runnerUp > ref.best + 1e-2 * (1 + fabs(ref.best))) { c.label("unique optimum"); c.check(r.obj <= at + 1e-4 * (1 + fabs(at)), "second-objective-lost", fmt("reported value %.10g, the only optimum of the problem has second objective %.10g", r.obj, at)); }
  if (seen.size() > 1) c.label("several values"); c.nontrivial();
}
static Reg r23({"P23", secondObjective, 5000, 50000, 20, 1, 0.2, "random convex MINLP x search options with a second objective for the integer solutions (the same, shifted, above, unrelated); non-trivial: the second objective was evaluated and the reported value compared", 150, 1500});
static void fixedCase(Case &c, ProbP p, Opts o) {
  note(c, *p, o);
  Oracle ref = bruteForce(*p);
  Outcome r = solveBonmin(p, o);
  if (r.threw) c.inconclusive(r.exc);
  checkReported(c, *p, r);
  expectOptimum(c, *p, ref, r);
}
static const double INF = DBL_MAX;
static void k01(Case &c) {
  Mk m; m.var(1, 0, 1, 0.5).var(2, -2, 5, 5);
  m.P->obj = m.f(1, {}, {Term{SQ, 2.5, 0, {{0, -2}}}, Term{SQ, 2.5, 4.5, {{0, 3}, {1, -3}}}});
  m.con(-0.125, 0.875, m.f(0, {-0.25, 0}, {}));
  m.P->prio = {5, 3};
  Opts o; o.set("bonmin.algorithm", "B-QG");
  fixedCase(c, m.P, o);
}
static void k02(Case &c) {
  Mk m; m.var(2, -INF, INF, -2.875);
  m.P->obj = m.f(0, {}, {Term{SQ, 1, 3, {{0, 1}}}});
  Opts o; o.set("bonmin.algorithm", "B-OA");
  fixedCase(c, m.P, o);
}
static void k03(Case &c) {
  Mk m; m.var(2, -4, 1, 1).var(2, 2, 9, 6.375).var(2, 3, 5, 3.5);
  m.P->obj = m.f(0, {0, 1, 0}, {});
  m.con(-INF, 81.25, m.f(0, {}, {Term{SQ, 2.5, 1, {{0, -3}}}}));
  m.con(-INF, 10.528, m.f(0, {0, -3.75, -3.25}, {Term{QUART, 1.25, -1.15385, {{1, 0.461538}}}}));
  Opts o; o.set("bonmin.algorithm", "B-QG"); o.set("bonmin.number_before_trust", "0"); o.set("bonmin.node_comparison", "depth-first"); o.set("bonmin.feas_check_cut_types", "Benders");
  fixedCase(c, m.P, o);
}
static void k04(Case &c) {
  Mk m; m.var(1, 0, 1, 0.5).var(1, 0, 1, 0.5);
  m.P->obj = m.f(0, {-3, -4}, {Term{SQ, 1, -1, {{0, 1}, {1, 1}}}});
  Sos q; q.idx = {0, 1}; q.w = {1, 2}; m.P->sos.push_back(q);
  Opts o; o.set("bonmin.algorithm", "B-OA"); o.set("bonmin.number_before_trust", "0");
  fixedCase(c, m.P, o);
}
static void k05(Case &c) {
  Mk m; m.var(2, 4, 4, 4).var(2, -INF, INF, 2.5);
  m.P->obj = m.f(0, {}, {Term{SQ, 1, -4.5, {{0, 1}}}, Term{SQ, 1, -6.5, {{1, 1}}}});
  m.con(12, 12, m.f(0, {3, 0}, {}));
  m.con(-INF, -14, m.f(0, {0, -4}, {}));
  Opts o; o.set("bonmin.algorithm", "B-BB");
  fixedCase(c, m.P, o);
}
static void k06(Case &c) {
  Mk m; m.var(2, -4, -3, -4).var(1, 0, 1, 0).var(2, -4, -1, -4).var(2, -4, -1, -4);
  m.P->obj = m.f(0, {0, 0, -1, -1}, {Term{SQ, 0.5, 0, {{0, 1}}}});
  m.con(-INF, 6.25, m.f(0, {}, {Term{SQ, 0.5, 0, {{0, 1}}}}));
  m.con(-INF, -3.25, m.f(0, {0, 0, 1, 0}, {Term{SQ, 0.5, 0, {{3, -1}, {0, 1}}}}));
  Opts o; o.set("bonmin.algorithm", "B-OA"); o.set("bonmin.num_cut_passes_at_root", "0");
  fixedCase(c, m.P, o);
}
static Reg rk6({"K06", k06, 1, 1, 20, 1, 1, "fixed input", 60, 60});
static Reg rk1({"K01", k01, 1, 1, 20, 1, 1, "fixed input", 60, 60});
static Reg rk2({"K02", k02, 1, 1, 20, 1, 1, "fixed input", 60, 60});
static Reg rk3({"K03", k03, 1, 1, 20, 1, 1, "fixed input", 60, 60});
static Reg rk4({"K04", k04, 1, 1, 20, 1, 1, "fixed input", 60, 60});
static Reg rk5({"K05", k05, 1, 1, 20, 1, 1, "fixed input", 60, 60});
