// Options, files, value types and the node pools of the tree search.
#include "prob.hpp"
#include "opt_table.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CbcModel.hpp"
#include <typeinfo>
#include <cfloat>
#include <cstring>
#include <memory>
#include <climits>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;
using Bonmin::BonminSetup; using Bonmin::BabSetupBase; using Bonmin::Bab;
template <class T> using Vec = std::vector<T>;
static std::string S(int v) { return std::to_string(v); }
struct Quiet { // the code under test prints (PBT_NOISY: debugging aid)
  int o, e; Quiet() { fflush(stdout); fflush(stderr); o = dup(1); e = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
  ~Quiet() { std::cout.flush(); fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e); }
};
struct Scratch { // a directory of our own, removed with everything in it
  std::string d; Vec<std::string> f;
  Scratch() { char b[] = "/tmp/pbt-XXXXXX"; d = mkdtemp(b); }
  std::string path(const std::string &n) { std::string p = d + "/" + n; f.push_back(p); return p; }
  ~Scratch() { for (auto &p : f) unlink(p.c_str()); rmdir(d.c_str()); }
};
static Vec<std::string> split(const std::string &s, char k) { Vec<std::string> r; std::stringstream t(s); std::string w; while (std::getline(t, w, k)) r.push_back(w); return r; }
static const OptDoc &doc(const std::string &n) { for (auto &d : OPTDOC) if (n == d.name) return d; abort(); }
static int enumIndex(const OptDoc &d, const std::string &v) { auto l = split(d.values, '|'); for (size_t i = 0; i < l.size(); i++) if (l[i] == v) return (int) i; return -1; }
static bool same(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * (1 + fabs(b)); }

// ---- P16: options are validated, resolved and reach the search as documented
// options whose value the setup itself changes, or that must keep the run quiet, stay out of the generated histories
static const char *HISTORY[] = {"allowable_fraction_gap", "allowable_gap", "cutoff", "cutoff_decr", "integer_tolerance", "iteration_limit", "nlp_failure_behavior", "node_comparison", "node_limit",
  "num_cut_passes", "num_cut_passes_at_root", "number_before_trust", "number_strong_branch", "solution_limit", "sos_constraints", "time_limit", "tree_search_strategy", "variable_selection",
  "2mir_cuts", "Gomory_cuts", "clique_cuts", "cover_cuts", "flow_cover_cuts", "lift_and_project_cuts", "mir_cuts", "reduce_and_split_cuts", "filmint_ecp_cuts", "nlp_solve_frequency",
  "max_consecutive_failures", "max_consecutive_infeasible", "bb_log_interval", "nlp_log_at_root", "heuristic_RINS", "heuristic_dive_MIP_fractional", "heuristic_dive_MIP_vectorLength",
  "heuristic_dive_fractional", "heuristic_dive_vectorLength", "heuristic_feasibility_pump", "pump_for_minlp", "algorithm", "maxmin_crit_no_sol", "warm_start", "oa_cuts_scope", "tiny_element", "random_point_type"};
struct Store { // reference: later values replace earlier ones unless read from text, a name with the prefix beats the same name without
  std::set<std::string> fixed;
  void put(const std::string &n, const std::string &val, bool text) { if (fixed.count(n)) return; v[n] = val; if (text) fixed.insert(n); }
  std::map<std::string, std::string> v;
  bool get(const std::string &n, std::string &r) const {
    auto i = v.find("bonmin." + n); if (i == v.end()) i = v.find(n); if (i == v.end()) { r = doc(n).def; return false; } r = i->second; return true; }
  std::string str(const std::string &n) const { std::string r; get(n, r); return r; }
  double num(const std::string &n) const { return atof(str(n).c_str()); }
  bool set(const std::string &n) const { std::string r; return get(n, r); }
};
static std::string genValue1(Case &c, const OptDoc &d, bool &ok) {
  ok = true;
  if (d.type == 'S') {
    auto l = split(d.values, '|');
    if (c.chance(10)) { ok = false; return c.pick({"maybe", "2", "best"}); }
    return l[c.draw(l.size())];
  }
  if (d.type == 'I') {
    if (c.chance(12)) { ok = false; return c.pick({"1.5", "a", "1x"}); }
    static const int V[] = {0, 1, 2, 3, 5, 7, 10, 100, -1, -5, -99, -100, -101, 12, 13, 6, 4, 1000000, INT_MAX};
    int v = V[c.draw(19)]; ok = v >= d.lo && v <= d.hi;
    return S(v);
  }
  if (c.chance(10)) { ok = false; return c.pick({"abc", "1e", "0..5", "no"}); }
  static const char *V[] = {"0", "1", "0.5", "1e-6", "1e-07", "12.25", "1e3", "-1", "-0.02", "1d2", "1e25", "-1e25", "3"};
  std::string s = V[c.draw(13)]; std::string t = s; for (auto &k : t) if (k == 'd') k = 'e';
  double v = atof(t.c_str());
  ok = (d.lostrict ? v > d.lo : v >= d.lo) && (d.histrict ? v < d.hi : v <= d.hi);
  return ok ? t : s;
}
static std::string genValue(Case &c, const OptDoc &d, bool &ok, bool wantOk) {
  for (int k = 0; k < 12; k++) { std::string v = genValue1(c, d, ok); if (ok || !wantOk) return v; }
  ok = true; return d.def;
}
static ProbP tiny() {
  ProbP p = std::make_shared<Prob>(); p->n = 2; p->type = {1, 2}; p->lb = {0, 0}; p->ub = {1, 3}; p->x0 = {0, 1}; p->elb = p->lb; p->eub = p->ub;
  p->obj.n = 2; p->obj.a = {0.25, -1}; Term t; t.kind = SQ; t.w = 1; t.b = -0.4; t.d = {{0, 1.}}; p->obj.t.push_back(t);
  Func f; f.n = 2; f.a = {1, 1}; Term u; u.kind = SQ; u.w = 0.5; u.b = 0; u.d = {{1, 1.}}; f.t.push_back(u); p->con.push_back(f); p->gl.push_back(-DBL_MAX); p->gu.push_back(3.5);
  return p;
}
static void eqi(Case &c, const char *what, long got, long want) { c.check(got == want, "option-value", fmt("%s is %ld, the options say %ld", what, got, want)); }
static void eqd(Case &c, const char *what, double got, double want) { c.check(same(got, want), "option-value", fmt("%s is %.15g, the options say %.15g", what, got, want)); }
// options of the searches that heuristics start: their own prefix, then the plain name, then the default
static void subSearchOptions(Case &c) {
  typedef BabSetupBase B;
  struct IO { const char *n; B::IntParameter p; int def, lo, hi; }; struct DO { const char *n; B::DoubleParameter p; double def; };
  static const IO I[] = {{"node_limit", B::MaxNodes, INT_MAX, 1, 500}, {"solution_limit", B::MaxSolutions, INT_MAX, 1, 50}, {"iteration_limit", B::MaxIterations, INT_MAX, 1, 900}, {"num_cut_passes", B::NumCutPasses, 1, 0, 9}, {"num_cut_passes_at_root", B::NumCutPassesAtRoot, 20, 1, 30}, {"bb_log_interval", B::BabLogInterval, 100, 1, 300}, {"max_consecutive_infeasible", B::MaxInfeasible, 0, 0, 9}};
  static const DO D[] = {{"allowable_gap", B::AllowableGap, 0.}, {"allowable_fraction_gap", B::AllowableFractionGap, 0.}, {"cutoff", B::Cutoff, 1e100}, {"cutoff_decr", B::CutoffDecr, 1e-5}, {"integer_tolerance", B::IntTol, 1e-6}, {"time_limit", B::MaxTime, 1e10}};
  const char *PRE[] = {"", "bonmin.", c.pick({"rins.", "rens.", "local_branch.", "my."})};
  GenOpt g; g.infRep = false; g.maxN = 3; g.maxM = 2; ProbP p = genProb(c, g); Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(p);
  BonminSetup b; b.initializeOptionsAndJournalist(); std::string log, txt = "print_level 0\nsb yes\nnlp_log_level 0\nbb_log_level 0\noa_log_level 0\nfp_log_level 0\nlp_log_level 0\n"; int set = 0;
  double want[2][2][8];
  for (int kind = 0; kind < 2; kind++) for (int k = 0; k < (kind ? 6 : 7); k++) {
    double v[3]; bool has[3];
    for (int q = 0; q < 3; q++) { has[q] = c.chance(25); v[q] = kind ? (k < 4 ? c.range(1, 40) / 8. : k == 4 ? c.range(1, 40) / 200. : c.range(100, 900)) : c.range(I[k].lo, I[k].hi); if (has[q]) { txt += fmt("%s%s %.17g\n", PRE[q], kind ? D[k].n : I[k].n, v[q]); log += fmt("%s%s=%g; ", PRE[q], kind ? D[k].n : I[k].n, v[q]); set++; } }
    double d = kind ? D[k].def : I[k].def;
    want[0][kind][k] = has[1] ? v[1] : has[0] ? v[0] : d; want[1][kind][k] = has[2] ? v[2] : has[0] ? v[0] : d;
  }
  const char *al = ALGOS[c.draw(6)], *al2 = ALGOS[c.draw(6)]; bool sub2 = c.chance(50); txt += fmt("bonmin.algorithm %s\n", al); if (sub2) txt += fmt("%salgorithm %s\n", PRE[2], al2);
  c.note("%s algorithm %s, of %s %s", log.c_str(), al, PRE[2], sub2 ? al2 : "unset"); c.label("sub-search");
  { Quiet q; b.readOptionsString(txt); b.initialize(Ipopt::GetRawPtr(t)); }
  Bonmin::OsiTMINLPInterface *nlp = dynamic_cast<Bonmin::OsiTMINLPInterface *>(b.nonlinearSolver()->clone()); BonminSetup *s; { Quiet q; s = b.clone(*nlp, PRE[2]); }
  std::unique_ptr<BonminSetup> own(s);
  for (int w = 0; w < 2; w++) {
    BonminSetup &S1 = w ? *s : b; const char *who = w ? "of the sub-search" : "of the search";
    for (int k = 0; k < 7; k++) eqi(c, fmt("%s %s", I[k].n, who).c_str(), S1.getIntParameter(I[k].p), (long) want[w][0][k]);
    for (int k = 0; k < 5; k++) eqd(c, fmt("%s %s", D[k].n, who).c_str(), S1.getDoubleParameter(D[k].p), want[w][1][k]);
    double tl = S1.getDoubleParameter(B::MaxTime); c.check(tl <= want[w][1][5] && tl > want[w][1][5] - 60, "option-value", fmt("time_limit %s is %g, the options say %g less the time of the setup", who, tl, want[w][1][5]));
  }
  c.check(std::string(s->prefix()) == PRE[2] && std::string(b.prefix()) == "bonmin.", "option-prefix", "prefix");
  eqi(c, "algorithm", (long) b.getAlgorithm(), enumIndex(doc("algorithm"), al)); eqi(c, "algorithm of the sub-search", (long) s->getAlgorithm(), enumIndex(doc("algorithm"), sub2 ? al2 : "B-BB"));
  if (set) c.nontrivial();
}
static void options(Case &c) {
  if (c.chance(15)) { subSearchOptions(c); return; }
  Store st; Scratch sc;
  Ipopt::SmartPtr<GenTMINLP> t = new GenTMINLP(tiny());
  BonminSetup b;
  { Quiet q; b.initializeOptionsAndJournalist(); }
  auto O = b.options();
  // documented names, types and defaults
  for (int k = 0; k < 3; k++) {
    const OptDoc &d = OPTDOC[c.draw(NOPT)];
    if (d.type == 'S') { std::string v; bool f = O->GetStringValue(d.name, v, "bonmin."); c.check(!f && v == d.def, "option-default", fmt("default of %s is %s, documented %s", d.name, v.c_str(), d.def)); }
    else if (d.type == 'I') { int v; bool f = O->GetIntegerValue(d.name, v, "bonmin."); c.check(!f && v == atoi(d.def), "option-default", fmt("default of %s is %d, documented %s", d.name, v, d.def)); }
    else { double v; bool f = O->GetNumericValue(d.name, v, "bonmin."); c.check(!f && same(v, atof(d.def)), "option-default", fmt("default of %s is %g, documented %s", d.name, v, d.def)); }
  }
  if (c.chance(2)) { // the options file written from the registered options reads back as the defaults
    std::stringstream os; int which = (int) c.draw(2);
    b.roptions()->writeBonminOpt(os, which ? Bonmin::RegisteredOptions::BonminCategory : Bonmin::RegisteredOptions::UndocumentedCategory);
    c.note("written options file");
    std::string f = sc.path("bonmin.opt"); std::ofstream(f) << os.str();
    bool threw = false;
    try { Quiet q; b.readOptionsFile(f); } catch (...) { threw = true; }
    c.check(!threw, "option-file", "the options file written with the defaults is rejected");
    int seen = 0;
    for (auto &d : OPTDOC) {
      bool f;
      if (d.type == 'S') { std::string v; f = O->GetStringValue(d.name, v, "bonmin."); c.check(v == d.def, "option-file", fmt("%s reads %s, default %s", d.name, v.c_str(), d.def)); }
      else if (d.type == 'I') { int v; f = O->GetIntegerValue(d.name, v, "bonmin."); c.check(v == atoi(d.def), "option-file", fmt("%s reads %d, default %s", d.name, v, d.def)); }
      else { double v; f = O->GetNumericValue(d.name, v, "bonmin."); c.check(same(v, atof(d.def)), "option-file", fmt("%s reads %g, default %s", d.name, v, d.def)); }
      seen += f;
    }
    if (which) c.check(seen >= NOPT / 2, "option-file", fmt("only %d documented options in the written file", seen));
    c.label("written-file"); return;
  }
  int rounds = c.range(1, 5), accepted = 0, rejected = 0; bool wantOk = c.chance(70);
  bool dead = false; std::string log;
  for (int k = 0; k < rounds && !dead; k++) {
    int how = (int) c.draw(3), cnt = c.range(1, 5);
    std::string text; Store ns = st; bool bad = false;
    for (int i = 0; i < cnt; i++) {
      bool unknown = !wantOk && c.chance(4), any = c.chance(25);
      const OptDoc &d = c.chance(12) ? doc("algorithm") : any ? OPTDOC[c.draw(NOPT)] : doc(HISTORY[c.draw(sizeof(HISTORY) / sizeof(*HISTORY))]);
      bool quietOnly = std::string(d.name).find("log_level") != std::string::npos || std::string(d.name) == "read_solution_file" || std::string(d.name) == "enable_dynamic_nlp" || std::string(d.name) == "file_solution" || std::string(d.name) == "nlp_solver" || std::string(d.name) == "milp_solver" || std::string(d.name) == "random_generator_seed" || std::string(d.name) == "oa_decomposition" || std::string(d.name) == "num_iterations_suspect" /* writes files */;
      bool ok; std::string v = genValue(c, d, ok, wantOk), n = (c.chance(60) ? "bonmin." : "") + std::string(unknown ? "no_such_option" : d.name);
      if (unknown) ok = false;
      if (ok && quietOnly) v = d.def;
      if (ok && !strncmp(d.name, "num_re", 6) && v.size() > 1) v = "2"; // number of solves at the root
      if (how == 0) {
        log += n + "=" + v + (ok ? "; " : " (invalid); ");
        bool r;
        { Quiet q;
          char *end; std::string w = v; for (auto &ch : w) if (ch == 'd') ch = 'e';
          if (d.type == 'I' && !unknown) { long x = strtol(v.c_str(), &end, 10); if (*end) { ok = true; r = true; } else { r = O->SetIntegerValue(n, (int) x); } if (*end) continue; }
          else if (d.type == 'F' && !unknown) { double x = strtod(w.c_str(), &end); if (*end) continue; r = O->SetNumericValue(n, x); }
          else r = O->SetStringValue(n, v);
        }
        c.check(r == ok, ok ? "option-rejected" : "option-accepted", fmt("%s %s is %s", n.c_str(), v.c_str(), r ? "accepted" : "rejected"));
        if (ok) { st.put(n, v, false); accepted++; } else rejected++;
      }
      else {
        if (c.chance(10)) text += "# a comment line\n";
        text += n + " " + v + "\n"; log += n + "=" + v + (ok ? "; " : " (invalid); ");
        if (!bad) { if (ok) { ns.put(n, v, true); accepted++; } else { bad = true; rejected++; } }
      }
    }
    if (how) {
      bool threw = false;
      try {
        Quiet q;
        if (how == 1) b.readOptionsString(text);
        else { std::string f = sc.path("o" + S(k)); std::ofstream(f) << text; b.readOptionsFile(f); }
      } catch (Ipopt::IpoptException &) { threw = true; } catch (CoinError &) { threw = true; } catch (int) { threw = true; }
      c.check(threw == bad, bad ? "option-accepted" : "option-rejected", fmt("%s of\n%s is %s", how == 1 ? "string" : "file", text.c_str(), threw ? "rejected" : "accepted"));
      st = ns; dead = bad;
    }
  }
  c.note("%s", log.c_str());
  // what was set is what is read
  for (auto &kv : st.v) {
    std::string n = kv.first.substr(kv.first.find('.') == std::string::npos ? 0 : kv.first.find('.') + 1);
    const OptDoc &d = doc(n);
    if (d.type == 'S') { std::string v; bool f = O->GetStringValue(n, v, "bonmin."); c.check(f && v == st.str(n), "option-resolution", fmt("%s reads %s, set %s", n.c_str(), v.c_str(), st.str(n).c_str())); }
    else if (d.type == 'I') { int v; bool f = O->GetIntegerValue(n, v, "bonmin."); c.check(f && v == atoi(st.str(n).c_str()), "option-resolution", fmt("%s reads %d, set %s", n.c_str(), v, st.str(n).c_str())); }
    else { double v; bool f = O->GetNumericValue(n, v, "bonmin."); c.check(f && same(v, st.num(n)), "option-resolution", fmt("%s reads %g, set %s", n.c_str(), v, st.str(n).c_str())); }
  }
  if (rejected) c.label("rejected");
  if (dead) { c.nontrivial(); return; }
  std::string algo = st.str("algorithm"), vs = st.str("variable_selection");
  // osi-simple: only for B-BB is it kept; combinations that stop on assertions outside this property are left out
  { Quiet q; b.readOptionsString("print_level 0\nsb yes\nbonmin.nlp_log_level 0\nbonmin.bb_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\n");
    try { b.initialize(GetRawPtr(t)); } catch (...) { c.discard(); } }
  bool bb = algo == "B-BB", lp = !bb;
  typedef BabSetupBase B;
  eqi(c, "algorithm", (long) b.getAlgorithm(), enumIndex(doc("algorithm"), algo));
  eqi(c, "bb_log_interval", b.getIntParameter(B::BabLogInterval), (long) st.num("bb_log_interval"));
  eqi(c, "max_consecutive_failures", b.getIntParameter(B::MaxFailures), (long) st.num("max_consecutive_failures"));
  eqi(c, "max_consecutive_infeasible", b.getIntParameter(B::MaxInfeasible), (long) st.num("max_consecutive_infeasible"));
  eqi(c, "nlp_failure_behavior", b.getIntParameter(B::FailureBehavior), enumIndex(doc("nlp_failure_behavior"), st.str("nlp_failure_behavior")));
  eqi(c, "node_limit", b.getIntParameter(B::MaxNodes), (long) st.num("node_limit"));
  auto nolimit = [](double v) { return v == 0 ? (long) INT_MAX : (long) v; };
  eqi(c, "solution_limit", b.getIntParameter(B::MaxSolutions), nolimit(st.num("solution_limit")));
  eqi(c, "iteration_limit", b.getIntParameter(B::MaxIterations), nolimit(st.num("iteration_limit")));
  eqi(c, "sos_constraints", b.getIntParameter(B::DisableSos), enumIndex(doc("sos_constraints"), st.str("sos_constraints")));
  eqi(c, "num_cut_passes", b.getIntParameter(B::NumCutPasses), (long) st.num("num_cut_passes"));
  eqi(c, "num_cut_passes_at_root", b.getIntParameter(B::NumCutPassesAtRoot), (long) st.num("num_cut_passes_at_root"));
  eqi(c, "nlp_log_at_root", b.getIntParameter(B::RootLogLevel), (long) st.num("nlp_log_at_root"));
  eqi(c, "node_comparison", (long) b.nodeComparisonMethod(), enumIndex(doc("node_comparison"), st.str("node_comparison")));
  eqi(c, "tree_search_strategy", (long) b.treeTraversalMethod(), enumIndex(doc("tree_search_strategy"), st.str("tree_search_strategy")));
  eqd(c, "cutoff_decr", b.getDoubleParameter(B::CutoffDecr), st.num("cutoff_decr"));
  eqd(c, "cutoff", b.getDoubleParameter(B::Cutoff), st.num("cutoff"));
  eqd(c, "allowable_gap", b.getDoubleParameter(B::AllowableGap), st.num("allowable_gap"));
  eqd(c, "allowable_fraction_gap", b.getDoubleParameter(B::AllowableFractionGap), st.num("allowable_fraction_gap"));
  eqd(c, "integer_tolerance", b.getDoubleParameter(B::IntTol), st.num("integer_tolerance"));
  double mt = b.getDoubleParameter(B::MaxTime), tl = st.num("time_limit");
  c.check(bb ? same(mt, tl) : mt <= tl + 1e-9 * fabs(tl) && mt >= tl - 5 - 1e-9 * fabs(tl), "option-value", fmt("time_limit is %g, the options say %g", mt, tl));
  long strong = (long) st.num("number_strong_branch"), trust = (long) st.num("number_before_trust");
  if (bb && !st.set("number_strong_branch")) strong = 1000;
  if (bb && !st.set("number_before_trust")) trust = 1;
  bool ss = st.set("number_strong_branch"), ts = st.set("number_before_trust");
  if (vs == "most-fractional") { strong = trust = 0; } else ss = false; // the strategy presets both; which of the two wins is not documented
  if (vs == "reliability-branching") trust = 10; else if (vs != "most-fractional") ts = false;
  if (!ss) eqi(c, "number_strong_branch", b.getIntParameter(B::NumberStrong), strong);
  if (!ts) eqi(c, "number_before_trust", b.getIntParameter(B::MinReliability), trust);
  // cut generators of the hybrid algorithms
  std::map<std::string, long> cg; for (auto &g : b.cutGenerators()) cg[g.id] = g.frequency;
  static const char *CG[][2] = {{"Gomory_cuts", "Mixed Integer Gomory"}, {"mir_cuts", "Mixed Integer Rounding"}, {"2mir_cuts", "2-MIR"}, {"cover_cuts", "Cover"}, {"clique_cuts", "Clique"}, {"flow_cover_cuts", "Flow Covers"},
                                {"lift_and_project_cuts", "Lift-and-Project"}, {"reduce_and_split_cuts", "Reduce-and-Split"}};
  for (auto &k : CG) {
    bool want = (algo == "B-Hyb" || algo == "B-Ecp") && st.num(k[0]) != 0;
    c.check(cg.count(k[1]) == want, "option-cuts", fmt("%s with %s=%s: generator %s", algo.c_str(), k[0], st.str(k[0]).c_str(), want ? "missing" : "present"));
    if (want) eqi(c, k[0], cg[k[1]], (long) st.num(k[0]));
  }
  if (algo == "B-QG" || algo == "B-Hyb") {
    bool want = st.num("filmint_ecp_cuts") != 0;
    c.check(cg.count("Ecp cuts") == want, "option-cuts", fmt("%s with filmint_ecp_cuts=%s: generator %s", algo.c_str(), st.str("filmint_ecp_cuts").c_str(), want ? "missing" : "present"));
    if (want) eqi(c, "filmint_ecp_cuts", cg["Ecp cuts"], (long) st.num("filmint_ecp_cuts"));
  }
  if (lp) for (const char *k : {"Outer Approximation feasibility check.", "Outer Approximation strong branching solution check."}) c.check(cg.count(k) == 1 && cg[k] == 1, "option-cuts", fmt("%s without %s", algo.c_str(), k));
  if (!st.set("oa_decomposition")) c.check(cg.count("Outer Approximation decomposition.") == (algo == "B-OA"), "option-cuts", "outer approximation decomposition");
  if (!st.set("pump_for_minlp")) c.check(cg.count("Feasibility Pump for MINLP.") == (algo == "B-iFP" || algo == "B-Hyb"), "option-cuts", "feasibility pump for MINLP");
  // heuristics
  std::map<std::string, int> hs; for (auto &h : b.heuristics()) hs[h.id]++;
  static const char *HE[][2] = {{"heuristic_RINS", "RINS"}, {"heuristic_dive_fractional", "DiveFractional"}, {"heuristic_dive_vectorLength", "DiveVectorLength"}, {"heuristic_dive_MIP_fractional", "DiveMIPFractional"}, {"heuristic_dive_MIP_vectorLength", "DiveMIPVectorLength"}};
  for (auto &k : HE) {
    bool want = st.str(k[0]) == "yes";
    if (bb && std::string(k[0]) == "heuristic_dive_MIP_fractional" && !st.set(k[0])) want = true; // default of B-BB
    c.check(hs[k[1]] == want, "option-heuristics", fmt("%s with %s=%s: heuristic %s", algo.c_str(), k[0], st.str(k[0]).c_str(), want ? "missing" : "present"));
  }
  if (lp) c.check(hs["FPump"] == (st.str("heuristic_feasibility_pump") == "yes"), "option-heuristics", "heuristic_feasibility_pump");
  if (bb) c.check(hs["Pump for MINLP"] == (st.str("pump_for_minlp") == "yes"), "option-heuristics", "pump_for_minlp");
  c.label("algo:" + algo);
  if (accepted) c.nontrivial();
  // a copy of a setup is set up the same way
  if (c.chance(20)) {
    Bonmin::OsiTMINLPInterface *other = NULL; std::unique_ptr<BonminSetup> k; { Quiet q; if (c.chance(50)) { other = dynamic_cast<Bonmin::OsiTMINLPInterface *>(b.nonlinearSolver()->clone()); k.reset(new BonminSetup(b, *other)); } else k.reset(new BonminSetup(b)); }
    const char *w = other ? "copy with another problem" : "copy"; c.label(w);
    for (int i = 0; i < B::NumberIntParam; i++) c.check(k->getIntParameter((B::IntParameter) i) == b.getIntParameter((B::IntParameter) i), "copy-of-setup", fmt("%s: integer parameter %d", w, i));
    for (int i = 0; i < B::NumberDoubleParam; i++) c.check(k->getDoubleParameter((B::DoubleParameter) i) == b.getDoubleParameter((B::DoubleParameter) i), "copy-of-setup", fmt("%s: parameter %d", w, i));
    c.check(k->nodeComparisonMethod() == b.nodeComparisonMethod() && k->treeTraversalMethod() == b.treeTraversalMethod() && k->getAlgorithm() == b.getAlgorithm() && std::string(k->prefix()) == b.prefix(), "copy-of-setup", fmt("%s: search strategy", w));
    c.check((k->branchingMethod() == NULL) == (b.branchingMethod() == NULL) && (!b.branchingMethod() || typeid(*k->branchingMethod()) == typeid(*b.branchingMethod())), "copy-of-setup", fmt("%s: branching method", w));
    c.check(k->cutGenerators().size() == b.cutGenerators().size() && k->heuristics().size() == b.heuristics().size() && k->objects().size() == b.objects().size(), "copy-of-setup", fmt("%s: %d cut generators, %d heuristics", w, (int) k->cutGenerators().size(), (int) k->heuristics().size()));
    auto x = k->cutGenerators().begin(); for (auto &y : b.cutGenerators()) { c.check(x->id == y.id && x->frequency == y.frequency && x->atSolution == y.atSolution && x->normal == y.normal && x->always == y.always && x->cgl != y.cgl && typeid(*x->cgl) == typeid(*y.cgl), "copy-of-setup", fmt("%s: cut generator %s", w, y.id.c_str())); ++x; }
    auto z = k->heuristics().begin(); for (auto &y : b.heuristics()) { c.check(z->id == y.id && z->heuristic != y.heuristic && typeid(*z->heuristic) == typeid(*y.heuristic), "copy-of-setup", fmt("%s: heuristic %s", w, y.id.c_str())); ++z; }
    c.check(k->nonlinearSolver() != b.nonlinearSolver() && k->nonlinearSolver()->getNumCols() == b.nonlinearSolver()->getNumCols() && k->continuousSolver()->getNumCols() == b.continuousSolver()->getNumCols(), "copy-of-setup", fmt("%s: problem", w));
    std::string o1, o2; auto lst = [](Ipopt::SmartPtr<Ipopt::OptionsList> l) { std::string t, r, w; l->PrintList(t); std::istringstream i(t); while (std::getline(i, w)) { r += w.substr(0, w.find_last_of(' ', w.find_last_not_of(' '))) + "\n"; } return r; }; // the last column counts the uses
    o1 = lst(b.options()); o2 = lst(k->options()); c.check(o1 == o2 && Ipopt::GetRawPtr(k->options()) != Ipopt::GetRawPtr(b.options()), "copy-of-setup", fmt("%s: options", w));
  }
  if (!c.chance(25)) return;
  // and reach the search itself
  static const char *NOSOLVE[] = {"osi-simple", "most-fractional", "random"};
  for (auto k : NOSOLVE) if (vs == k) return;
  if (lp && trust) return; // known finding K01
  // without the prefix these also hold for the searches they start themselves, which never end (DESIGN.md)
  for (auto k : {"pump_for_minlp", "heuristic_RINS"}) { auto i = st.v.find(k); if (i != st.v.end() && i->second == "yes") return; }
  if (st.num("integer_tolerance") > 0.3 || st.num("tiny_element") > 1e-5 || tl < 1 || (st.set("random_point_type") && st.str("random_point_type") != "Jon")) return;
  Bab bab;
  try { Quiet q; bab(b); } catch (...) { c.label("solve-threw"); return; }
  const CbcModel &m = bab.model();
  c.label("solved");
  if (st.num("node_limit") > 0) eqi(c, "node_limit of the search", m.getMaximumNodes(), (long) st.num("node_limit"));
  eqi(c, "solution_limit of the search", m.getMaximumSolutions(), nolimit(st.num("solution_limit")));
  eqi(c, "iteration_limit of the search", m.maximumNumberIterations(), nolimit(st.num("iteration_limit")));
  eqi(c, "num_cut_passes of the search", m.getMaximumCutPasses(), (long) st.num("num_cut_passes"));
  eqi(c, "num_cut_passes_at_root of the search", m.getMaximumCutPassesAtRoot(), (long) st.num("num_cut_passes_at_root"));
  if (st.num("bb_log_interval") > 0) /* 0 lets Cbc choose */ eqi(c, "bb_log_interval of the search", m.printFrequency(), (long) st.num("bb_log_interval"));
  if (!ss) eqi(c, "number_strong_branch of the search", m.numberStrong(), strong);
  if (!ts) eqi(c, "number_before_trust of the search", m.numberBeforeTrust(), trust);
  eqd(c, "allowable_gap of the search", m.getDblParam(CbcModel::CbcAllowableGap), st.num("allowable_gap"));
  eqd(c, "allowable_fraction_gap of the search", m.getDblParam(CbcModel::CbcAllowableFractionGap), st.num("allowable_fraction_gap"));
  eqd(c, "integer_tolerance of the search", m.getIntegerTolerance(), st.num("integer_tolerance"));
}
static Reg r16({"P16", options, 20000, 200000, 20, 20, 0.3, "random sequences of setting documented options by call, string and file, with and without prefix, valid and invalid, then setup of a random algorithm: acceptance, resolution, defaults, search parameters, cut generators and heuristics compared with the documentation; non-trivial: at least one option accepted or a rejection", 120, 1200});

// ---- P17: what is written about a subproblem can be read back
#include "BonTMINLP2TNLP.hpp"
#include "BonBoundsReader.hpp"
#include "BonStartPointReader.hpp"
#include "BonColReader.hpp"
#include "BonIpoptSolver.hpp"
#include "CoinFloatEqual.hpp"
using Ipopt::SmartPtr; using Bonmin::OsiTMINLPInterface; using Bonmin::BoundsReader; using Bonmin::StartPointReader; using Bonmin::NamesReader;
struct MCtx {
  BonminSetup b; SmartPtr<GenTMINLP> t; OsiTMINLPInterface *nlp;
  MCtx(ProbP p) {
    Quiet q; t = new GenTMINLP(p); b.initializeOptionsAndJournalist();
    b.readOptionsString("print_level 0\nsb yes\nbonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.algorithm B-BB\n");
    b.initialize(GetRawPtr(t)); nlp = b.nonlinearSolver();
  }
};
static double value(Case &c) { // numbers whose decimal form is not short
  double m; switch (c.draw(5)) { case 0: m = 1. / 3; break; case 1: m = 1.0000000001; break; case 2: m = 123456.789012345; break; case 3: m = 1e-7 / 3; break; default: m = 1; }
  return m * c.sgn(20) + (c.chance(30) ? ldexp((double) c.draw(1u << 30), -40) : 0);
}
static std::string nameOf(Case &c, int i) { if (c.chance(15)) return std::string(1, (char) ('A' + i)); static const char *B[] = {"x", "flow[1,2]", "very_long_name_of_a_variable_that_goes_on_and_on", "y'", "X_", "a.b", "3x"}; return std::string(B[c.draw(7)]) + "_" + S(i); }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void files(Case &c) {
  GenOpt g; g.infRep = false; g.maxN = 6; g.maxM = 3; g.mixed = c.chance(50); g.allowInf = true; g.allowFree = true; ProbP p = genProb(c, g);
  MCtx A(p), B(p); OsiTMINLPInterface *o = A.nlp, *q = B.nlp; int n = p->n, m = (int) p->con.size(); Scratch sc; std::string log;
  Vec<double> l0(o->getColLower(), o->getColLower() + n), u0(o->getColUpper(), o->getColUpper() + n);
  int changed = 0;
  for (int i = 0; i < n; i++) {
    int k = (int) c.draw(6); double a = o->getColLower()[i], b = o->getColUpper()[i];
    if (k == 1) a = value(c); else if (k == 2) b = value(c); else if (k == 3) a = b = value(c); else if (k == 4) a = -DBL_MAX; else if (k == 5) b = DBL_MAX; else continue;
    if (a > b) std::swap(a, b);
    o->setColLower(i, a); o->setColUpper(i, b); changed++; log += fmt("x%d in [%.17g,%.17g]; ", i, a, b);
  }
  Vec<double> x, y; int start = (int) c.draw(3);
  if (start) { for (int i = 0; i < n; i++) x.push_back(value(c)); o->setColSolution(x.data()); }
  if (start == 2) { for (int i = 0; i < 2 * n + m; i++) y.push_back(value(c)); o->setRowPrice(y.data()); }
  int how = (int) c.draw(4); bool named = how == 1 || how == 3; // 0,1 outputDiffs, 2,3 writeDiffFiles
  Vec<std::string> nm; for (int i = 0; i < n; i++) nm.push_back(nameOf(c, i));
  std::string pre = sc.d + "/", name = "sub" + S((int) c.draw(3)), fb, fs, fm;
  if (how < 2) { fb = pre + name + ".bounds"; fs = pre + name + ".start"; fm = pre + name + ".mod"; }
  else { if (named) { name = pre + name; pre = ""; } fb = pre + name + "_bounds"; fs = pre + name + "_start"; fm = pre + name + "_bounds.mod"; }
  sc.f.push_back(fb); sc.f.push_back(fs); sc.f.push_back(fm);
  // files of that name from an earlier run are replaced
  if (c.chance(30)) { std::ofstream(fb) << "LO 0 77\nUP 0 78\nLO 1 77\n"; std::ofstream(fs) << "1 0\n5\n"; }
  bool stale = false; { std::ifstream s(fs); stale = s.is_open(); }
  if (named && how == 3) { std::string cf = name + ".col"; sc.f.push_back(cf); std::ofstream s(cf); for (auto &k : nm) s << k << (c.chance(90) ? "\n" : "  \n\n"); }
  c.note("%s start=%d how=%d %s", log.c_str(), start, how, name.c_str());
  { Quiet quiet;
    if (how < 2) o->problem()->outputDiffs(pre + name, named ? nm.data() : NULL);
    else { Bonmin::IpoptSolver::UnsolvedIpoptError e(-1, o->problem(), name); e.writeDiffFiles(pre); } }
  // bounds
  bool twice = c.chance(30); BoundsReader br(fb);
  if (c.chance(30)) { std::string other = sc.path("other"); { std::ofstream s(other); s.precision(17); s << "UP 0 " << u0[0] << "\n"; } BoundsReader b2(other); b2.readAndApply(q); }
  br.readAndApply(q); if (twice) br.readAndApply(q);
  CoinRelFltEq eq;
  auto sameB = [&](double got, double want, double orig) { return got == want || (got == orig && eq(want, orig)); };
  for (int i = 0; i < n; i++) {
    c.check(sameB(q->getColLower()[i], o->getColLower()[i], l0[i]), "bounds-file", fmt("lower bound of x%d is %.17g, written as %.17g", i, q->getColLower()[i], o->getColLower()[i]));
    c.check(sameB(q->getColUpper()[i], o->getColUpper()[i], u0[i]), "bounds-file", fmt("upper bound of x%d is %.17g, written as %.17g", i, q->getColUpper()[i], o->getColUpper()[i]));
  }
  // the model file names the same bounds
  if (named) {
    std::ifstream s(fm); std::string w, ne, op, va; std::map<std::pair<std::string, std::string>, double> got; int lines = 0, want = 0;
    while (s >> w >> ne >> op >> va) { lines++; got[{ne, op}] = atof(va.c_str()); }
    for (int i = 0; i < n; i++) for (int up = 0; up < 2; up++) {
      double v = up ? o->getColUpper()[i] : o->getColLower()[i], v0 = up ? u0[i] : l0[i];
      if (eq(v, v0)) continue; want++;
      auto k = got.find({nm[i], up ? "<=" : ">="});
      c.check(k != got.end() && fabs(k->second - v) <= 2e-5 * fabs(v), "model-file", fmt("no constraint for the %s bound of %s in\n%s", up ? "upper" : "lower", nm[i].c_str(), slurp(fm).c_str()));
    }
    c.check(lines == want, "model-file", fmt("%d constraints for %d changed bounds", lines, want));
  }
  // start point
  Vec<double> wx = x; if (!start) wx.assign(o->problem()->x_init_user(), o->problem()->x_init_user() + n);
  bool none = !start && how >= 2; // documented: no starting point, no output
  StartPointReader sr(fs); bool ok; { Quiet quiet; ok = sr.readAndApply(q); }
  if (none) { if (!stale) c.check(!ok, "start-file", "a start point file that was never written is accepted"); }
  else {
    c.check(ok, "start-file", "the start point file is not accepted: " + slurp(fs));
    const double *gx = q->problem()->x_init();
    for (int i = 0; i < n; i++) c.check(gx && gx[i] == wx[i], "start-file", fmt("x%d starts at %.17g, written as %.17g", i, gx ? gx[i] : 0., wx[i]));
    const double *gy = q->problem()->duals_init();
    if (start == 2) for (int i = 0; i < 2 * n + m; i++) c.check(gy && gy[i] == y[i], "start-file", fmt("multiplier %d starts at %.17g, written as %.17g", i, gy ? gy[i] : 0., y[i]));
  }
  c.label(none ? "no-start" : start == 2 ? "primal-dual" : "primal");
  if (changed || start) c.nontrivial();
  // damaged files
  if (!none) {
    std::string t = slurp(fs), f = sc.path("damaged"); int kind = (int) c.draw(4); size_t ws = t.find_last_not_of(" \n\t");
    if (kind == 0) t = t.substr(0, t.find_last_of(" \n\t", ws) + 1); // the last number is missing
    else if (kind == 1) t = ""; else if (kind == 2) t = "abc " + t; else t = S(n + 1) + " 0\n" + t;
    if (kind != 3) { std::ofstream(f) << t; Quiet quiet; MCtx D(p); Vec<double> x0; StartPointReader r(f); c.check(!r.readAndApply(D.nlp), "damaged-start-file", "a start file without all its numbers is accepted: " + t); }
    else { std::ofstream s(f); s << n + 1 << " 0\n"; for (int i = 0; i <= n; i++) s << i << "\n"; s.close(); Quiet quiet; MCtx D(p); StartPointReader r(f); c.check(!r.readAndApply(D.nlp), "damaged-start-file", "a start point of another size is accepted"); }
  }
  { Quiet quiet; StartPointReader r(sc.d + "/absent"); c.check(!r.readAndApply(q), "missing-file", "a missing start file is accepted"); }
  { std::string f = sc.path("badbounds"); std::ofstream(f) << "LO 0 1\nFX 0 1\n"; bool threw = false; MCtx D(p); try { BoundsReader r(f); r.readAndApply(D.nlp); } catch (CoinError &) { threw = true; } c.check(threw, "damaged-bounds-file", "an unknown kind of bound is accepted"); }
  { // a bounds file of any order, with repeated bounds (the last one counts) and text after the numbers
    MCtx D(p); std::string f = sc.path("anybounds"); Vec<double> wl(D.nlp->getColLower(), D.nlp->getColLower() + n), wu(D.nlp->getColUpper(), D.nlp->getColUpper() + n); int k = c.range(0, 8); std::string t;
    for (int r = 0; r < k; r++) { int i = (int) c.draw(n); double v = value(c); bool up = c.chance(50); (up ? wu : wl)[i] = v; t += fmt(c.chance(80) ? "%s %d %.17g" : "  %s\t%d   %.17g", up ? "UP" : "LO", i, v) + (c.chance(15) ? "  # LO 0 5" : "") + (r + 1 < k || c.chance(70) ? "\n" : ""); }
    std::ofstream(f) << t; BoundsReader r(f); r.readAndApply(D.nlp);
    for (int i = 0; i < n; i++) c.check(D.nlp->getColLower()[i] == wl[i] && D.nlp->getColUpper()[i] == wu[i], "bounds-file", fmt("x%d is in [%.17g,%.17g], expected [%.17g,%.17g] after\n%s", i, D.nlp->getColLower()[i], D.nlp->getColUpper()[i], wl[i], wu[i], t.c_str())); }
  { std::string f = sc.path("cutbounds"); std::ofstream(f) << c.pick({"LO 0", "UP", "LO 0 1\nUP 0", "LO 0 x\n", ""}); MCtx D(p); try { BoundsReader r(f); r.readAndApply(D.nlp); r.readAndApply(D.nlp); } catch (CoinError &) {} } // no crash
  // names, read several times by the same reader
  NamesReader nr("", ".col"); int rounds = c.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    int k = c.range(1, 12); Vec<std::string> ns; for (int i = 0; i < k; i++) ns.push_back(nameOf(c, i));
    std::string base = sc.d + "/names" + S(r), f = base + ".col"; sc.f.push_back(f);
    { std::ofstream s(f); for (int i = 0; i < k; i++) s << ns[i] << (i + 1 < k || c.chance(70) ? "\n" : ""); }
    bool okr = nr.readFile(c.chance(50) ? base : base + ".nl"); c.check(okr, "names-file", "a file of names is not found");
    OsiSolverInterface::OsiNameVec v; nr.copyNames(v);
    c.check((int) v.size() == k, "names-file", fmt("%d names read, %d written", (int) v.size(), k));
    for (int i = 0; i < k; i++) c.check(v[i] == ns[i] && nr.name(i) == ns[i] && nr.index(ns[i].c_str()) == i, "names-file", fmt("name %d is %s, index of it %d, written %s", i, v[i].c_str(), nr.index(ns[i].c_str()), ns[i].c_str()));
  }
  c.check(!nr.readFile(sc.d + "/absent"), "missing-file", "a missing file of names is accepted");
}
static Reg r17({"P17", files, 6000, 60000, 20, 10, 0.05, "a subproblem with random bounds and start point is written by either writer, with and without names, and read into a fresh interface; damaged, missing and older files; name files read repeatedly; non-trivial: some bound or the start was changed", 120, 1200});

// ---- P24: problem data can be copied, and copies are independent
static void values(Case &c) {
  typedef Bonmin::TMINLP T;
  struct Sv { Vec<char> ty; Vec<int> pr, st, ix; Vec<double> w; };
  auto genS = [&](T::SosInfo &s) {
    s.num = c.range(0, 4); s.types = NULL; if (!s.num) return;
    Vec<int> st(1, 0), ix; Vec<double> w;
    for (int k = 0; k < s.num; k++) { int z = c.range(1, 4); for (int j = 0; j < z; j++) { ix.push_back((int) c.draw(9)); w.push_back(value(c)); } st.push_back((int) ix.size()); }
    s.types = new char[s.num]; s.priorities = new int[s.num]; for (int k = 0; k < s.num; k++) { s.types[k] = (char) c.range(1, 2); s.priorities[k] = c.sgn(100); }
    s.numNz = (int) ix.size(); s.starts = new int[s.num + 1]; std::copy(st.begin(), st.end(), s.starts);
    s.indices = new int[s.numNz]; std::copy(ix.begin(), ix.end(), s.indices); s.weights = new double[s.numNz]; std::copy(w.begin(), w.end(), s.weights);
  };
  auto viewS = [](const T::SosInfo &s) { Sv v; if (s.num) { v.ty.assign(s.types, s.types + s.num); v.pr.assign(s.priorities, s.priorities + s.num); v.st.assign(s.starts, s.starts + s.num + 1); v.ix.assign(s.indices, s.indices + s.numNz); v.w.assign(s.weights, s.weights + s.numNz); } return v; };
  auto eqS = [](const Sv &a, const Sv &b) { return a.ty == b.ty && a.pr == b.pr && a.st == b.st && a.ix == b.ix && a.w == b.w; };
  struct Bv { bool h[4]; Vec<int> p, d; Vec<double> u, w; bool operator==(const Bv &o) const { return !memcmp(h, o.h, sizeof h) && p == o.p && d == o.d && u == o.u && w == o.w; } };
  auto genB = [&](T::BranchingInfo &s) {
    s.size = c.range(1, 6);
    if (c.chance(60)) { s.priorities = new int[s.size]; for (int i = 0; i < s.size; i++) s.priorities[i] = c.sgn(9); }
    if (c.chance(60)) { s.branchingDirections = new int[s.size]; for (int i = 0; i < s.size; i++) s.branchingDirections[i] = c.sgn(1); }
    if (c.chance(60)) { s.upPsCosts = new double[s.size]; for (int i = 0; i < s.size; i++) s.upPsCosts[i] = value(c); }
    if (c.chance(60)) { s.downPsCosts = new double[s.size]; for (int i = 0; i < s.size; i++) s.downPsCosts[i] = value(c); }
  };
  auto viewB = [](const T::BranchingInfo &s) { Bv v; v.h[0] = s.priorities; v.h[1] = s.branchingDirections; v.h[2] = s.upPsCosts; v.h[3] = s.downPsCosts; int n = s.size;
    if (v.h[0]) v.p.assign(s.priorities, s.priorities + n); if (v.h[1]) v.d.assign(s.branchingDirections, s.branchingDirections + n); if (v.h[2]) v.u.assign(s.upPsCosts, s.upPsCosts + n); if (v.h[3]) v.w.assign(s.downPsCosts, s.downPsCosts + n); return v; };
  int kind = (int) c.draw(3);
  if (kind == 0) {
    Vec<std::pair<std::unique_ptr<T::SosInfo>, Sv>> pool; pool.emplace_back(new T::SosInfo, Sv()); genS(*pool[0].first); pool[0].second = viewS(*pool[0].first);
    c.note("sos num=%d nz=%d", pool[0].first->num, pool[0].first->numNz);
    int ops = c.range(1, 8);
    for (int k = 0; k < ops; k++) {
      size_t i = c.draw(pool.size()); T::SosInfo &s = *pool[i].first;
      switch (c.draw(3)) {
        case 0: pool.emplace_back(new T::SosInfo(s), pool[i].second); break;
        case 1: if (s.num) { s.weights[0] += 1; s.priorities[0]++; s.indices[s.numNz - 1]++; pool[i].second = viewS(s); } break;
        default: if (pool.size() > 1) { pool.erase(pool.begin() + i); } break;
      }
      for (auto &q : pool) c.check(eqS(viewS(*q.first), q.second), "sos-copy", "a set of SOS constraints changed by copying, changing or deleting another");
    }
    c.nontrivial(); c.label("sos");
  } else if (kind == 1) {
    Vec<std::pair<std::unique_ptr<T::BranchingInfo>, Bv>> pool; pool.emplace_back(new T::BranchingInfo, Bv()); genB(*pool[0].first); pool[0].second = viewB(*pool[0].first);
    int ops = c.range(1, 8);
    for (int k = 0; k < ops; k++) {
      size_t i = c.draw(pool.size()); T::BranchingInfo &s = *pool[i].first;
      switch (c.draw(3)) {
        case 0: pool.emplace_back(new T::BranchingInfo(s), pool[i].second); break;
        case 1: if (s.priorities) s.priorities[0]++; if (s.upPsCosts) s.upPsCosts[s.size - 1] += 1; if (s.downPsCosts) s.downPsCosts[0] -= 1; if (s.branchingDirections) s.branchingDirections[0] *= -1; pool[i].second = viewB(s); break;
        default: if (pool.size() > 1) pool.erase(pool.begin() + i); break;
      }
      for (auto &q : pool) c.check(viewB(*q.first) == q.second, "branching-copy", "branching information changed by copying, changing or deleting another");
    }
    c.nontrivial(); c.label("branching");
  } else {
    T::PerturbInfo pi; c.check(pi.GetPerturbationArray() == NULL, "perturb", "radii before any were set");
    int ops = c.range(1, 6);
    for (int k = 0; k < ops; k++) {
      if (c.chance(30)) { pi.SetPerturbationArray(c.range(0, 5), NULL); c.check(pi.GetPerturbationArray() == NULL, "perturb", "radii after they were removed"); continue; }
      Vec<double> v(c.range(1, 7)); for (double &d : v) d = value(c);
      pi.SetPerturbationArray((int) v.size(), v.data()); Vec<double> w = v; for (double &d : v) d = 7;
      for (size_t i = 0; i < w.size(); i++) c.check(pi.GetPerturbationArray() && pi.GetPerturbationArray()[i] == w[i], "perturb", "another radius than the one set");
    }
    c.nontrivial(); c.label("perturb");
  }
}
static Reg r24({"P24", values, 200000, 4000000, 20, 50, 0.01, "random histories of filling, copying, changing and deleting; every case is non-trivial", 60, 600});

// ---- P21: the node pools of the tree search lose and invent nothing
#include "BonDiver.hpp"
#include "CbcCompareObjective.hpp"
#include "CbcCompareDepth.hpp"
#include "CbcFullNodeInfo.hpp"
#include "OsiBranchingObject.hpp"
template <class Tag, typename Tag::type M> struct Rob { friend typename Tag::type getp(Tag) { return M; } };
struct NiTag { typedef CbcNodeInfo *CbcNode::*type; friend type getp(NiTag); };
template struct Rob<NiTag, &CbcNode::nodeInfo_>;
struct FakeBranch : OsiBranchingObject { // only counts
  FakeBranch(int k) : OsiBranchingObject(NULL, 0.5) { numberBranches_ = k; }
  virtual OsiBranchingObject *clone() const { return new FakeBranch(*this); }
  virtual double branch(OsiSolverInterface *) { decrementNumberBranchesLeft(); return 0; }
  virtual bool boundBranch() const { return true; }
};
typedef Bonmin::CbcDfsDiver Dfs;
static void pools(Case &c) {
  int kind = (int) c.draw(3); bool stopCut = c.chance(40);
  ProbP p(new Prob); p->n = 1; p->type = {2}; p->lb = p->elb = {0}; p->ub = p->eub = {1}; p->x0 = {0}; p->obj.n = 1; p->obj.a = {1.};
  BonminSetup b; b.initializeOptionsAndJournalist();
  b.options()->SetStringValue("bonmin.stop_diving_on_cutoff", stopCut ? "yes" : "no");
  int mb = c.range(0, 4), md = c.chance(30) ? c.range(0, 4) : INT_MAX;
  b.options()->SetIntegerValue("bonmin.max_backtracks_in_dive", mb); b.options()->SetIntegerValue("bonmin.max_dive_depth", md);
  std::unique_ptr<CbcTree> tree; Bonmin::DiverCompare dc; CbcCompareObjective best; CbcCompareDepth deep; Dfs *dfs = NULL;
  if (kind == 0) { Bonmin::CbcDiver d; d.initialize(b); tree.reset(d.clone()); }
  else if (kind == 1) { Bonmin::CbcProbedDiver d; d.initialize(b); tree.reset(d.clone()); }
  else { Dfs d; d.initialize(b); tree.reset(d.clone()); dfs = dynamic_cast<Dfs *>(tree.get()); }
  CbcCompareBase *cmp = &best;
  if (dfs) { dc.setDiver(dfs); if (c.chance(50)) dc.setComparisonDive(best); else dc.setComparisonDive(deep); dc.setComparisonBound(best); dc.setNumberSolToStopDive(c.range(1, 4)); dc.setNumberNodesToLimitTreeSize(c.range(2, 40)); cmp = &dc; }
  tree->setComparison(*cmp);
  CbcModel model; Vec<CbcNode *> live, all; std::map<CbcNode *, int> id; std::string log; int sols = 0, count = 0;
  CbcNode *next = NULL; // the node a dive has to go on with
  double cutoff = 1e50;
  auto fresh = [&](double obj, int depth) {
    CbcNode *n = new CbcNode; int k = c.chance(20) ? 3 : 2; n->setObjectiveValue(obj); n->setDepth(depth); n->setGuessedObjectiveValue(obj + c.range(0, 8)); n->setBranchingObject(new FakeBranch(k));
    CbcFullNodeInfo *f = new CbcFullNodeInfo; f->initializeInfo(k); n->*getp(NiTag()) = f; n->setActive(true); id[n] = (int) all.size(); all.push_back(n); return n; };
  auto verify = [&](const char *op) {
    c.check(tree->size() == (int) live.size(), "pool-size", fmt("after %s: %d nodes counted, %d open\n%s", op, tree->size(), (int) live.size(), log.c_str()));
    c.check(tree->empty() == live.empty(), "pool-empty", fmt("after %s: %s with %d open nodes\n%s", op, tree->empty() ? "empty" : "not empty", (int) live.size(), log.c_str()));
    if (!live.empty()) { double m = 1e300; for (auto n : live) m = std::min(m, n->objectiveValue()); double g = tree->getBestPossibleObjective(); c.check(g == m, "pool-bound", fmt("after %s: best possible objective %g, the open nodes say %g\n%s", op, g, m, log.c_str())); }
  };
  auto take = [&](CbcNode *n, const char *op) { auto k = std::find(live.begin(), live.end(), n); c.check(k != live.end(), "pool-node", fmt("%s hands out %s\n%s", op, n ? "a node that is not open" : "no node although there are open ones", log.c_str())); live.erase(k); };
  auto push = [&](CbcNode *n) { tree->push(n); live.push_back(n); log += fmt("push %d(%g,d%d,%d/%d) ", id[n], n->objectiveValue(), n->depth(), n->branchingObject()->numberBranchesLeft(), n->branchingObject()->numberBranches()); };
  push(fresh(c.range(0, 5), 0)); next = live[0]; verify("push");
  int steps = c.range(3, 60);
  for (int s = 0; s < steps && !live.empty(); s++) {
    int op = (int) c.draw(12);
    if (op < 8) { // one node of the search
      double need = next && kind == 0 && next->objectiveValue() < cutoff && !(stopCut && next->guessedObjectiveValue() >= cutoff) ? 1 : 0;
      CbcNode *heapBest = NULL; if (kind == 0 && !next) { double m = 1e300; for (auto n : live) m = std::min(m, n->objectiveValue()); for (auto n : live) if (n->objectiveValue() == m) heapBest = n; }
      CbcNode *n = tree->bestNode(cutoff); take(n, "bestNode"); log += fmt("best %d; ", id[n]); count++;
      if (need) c.check(n == next, "pool-dive", fmt("the dive goes on with node %d instead of its child %d\n%s", id[n], id[next], log.c_str()));
      if (heapBest) c.check(n->objectiveValue() == heapBest->objectiveValue(), "pool-order", fmt("node %d with objective %g before one with %g\n%s", id[n], n->objectiveValue(), heapBest->objectiveValue(), log.c_str()));
      next = NULL; verify("bestNode");
      if (n->objectiveValue() >= cutoff) continue; // the search drops it
      n->modifiableBranchingObject()->branch(NULL); n->nodeInfo()->branchedOn();
      if (n->branchingObject()->numberBranchesLeft()) { push(n); verify("push of the parent"); }
      if (c.chance(75)) { CbcNode *k = fresh(n->objectiveValue() + (c.chance(30) ? 0 : 0.5 * c.range(0, 12)), n->depth() + 1); if (k->objectiveValue() < cutoff) { push(k); next = k; verify("push of the child"); } }
    } else if (op == 8) { // a new incumbent
      cutoff = std::min(cutoff, (double) c.range(2, 40)); model.setSolutionCount(++sols); log += fmt("cutoff %g; ", cutoff);
      if (cmp->newSolution(&model)) { tree->setComparison(*cmp); next = NULL; }
      verify("newSolution");
      if (c.chance(50)) { double bp = -1; double m = 1e300; for (auto n : live) m = std::min(m, n->objectiveValue()); tree->cleanTree(&model, 1e80, bp); next = NULL; log += "clean; "; c.check(live.empty() || bp == m, "pool-bound", fmt("cleanTree says %g, the open nodes %g\n%s", bp, m, log.c_str())); verify("cleanTree"); }
    } else if (op == 9) { if (cmp->every1000Nodes(&model, count * c.range(1, 5))) { tree->setComparison(*cmp); next = NULL; } log += "every1000; "; verify("every1000Nodes"); }
    else if (op == 10) { CbcNode *n = tree->top(); c.check(n && std::find(live.begin(), live.end(), n) != live.end(), "pool-node", "top is not an open node\n" + log); if (c.chance(40)) { tree->pop(); take(n, "top"); next = NULL; log += fmt("pop %d; ", id[n]); verify("pop"); } }
    else { // a copy holds the same nodes
      std::unique_ptr<CbcTree> t2(tree->clone()); t2->setComparison(*cmp); int k = 0; // the base class does not copy it
      Vec<CbcNode *> got;
      c.check(t2->size() == (int) live.size() && t2->empty() == live.empty(), "pool-copy", "a copy has another size\n" + log);
      if (kind != 2) { while (!t2->empty() && k++ < 1000) got.push_back(t2->bestNode(1e100)); Vec<CbcNode *> w = live; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); c.check(w == got, "pool-copy", "a copy hands out other nodes\n" + log); }
      verify("clone");
    }
  }
  int k = 0; while (!tree->empty() && k++ < 10000) { CbcNode *n = tree->bestNode(c.chance(50) ? 1e100 : cutoff); take(n, "bestNode at the end"); log += fmt("best %d; ", id[n]); }
  c.check(live.empty(), "pool-node", fmt("%d nodes were lost\n%s", (int) live.size(), log.c_str()));
  c.note("pool %d stop=%d backtracks=%d depth=%d %s", kind, stopCut, mb, md, log.c_str());
  c.label(kind == 0 ? "dive" : kind == 1 ? "probed-dive" : "dfs-dive"); if (all.size() > 3) c.nontrivial();
}
static Reg r21({"P21", pools, 30000, 600000, 20, 20, 0.01, "histories of a tree search: take the best node, branch, put back the parent, put in the child, new incumbents and cutoffs, changes of mode, cleaning, copies; non-trivial: more than three nodes", 90, 900});
