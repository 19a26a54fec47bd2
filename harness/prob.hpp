// Generated MINLPs with exact derivatives, and reference oracles for them.
#ifndef VERIF_PROB_HPP
#define VERIF_PROB_HPP
#include "pbt.hpp"
#include "BonTMINLP.hpp"
#include "IpTNLP.hpp"
#include <memory>
#include <set>

enum Kind { SQ = 0, EXPK = 1, SQRTK = 2, NLOG = 3, QUART = 4, INV = 5, SINK = 6 };
struct Term {
  int kind; double w, b; std::vector<std::pair<int, double>> d;
  double u(const double *x) const { double r = b; for (auto &p : d) r += p.second * x[p.first]; return r; }
};
struct Func {
  int n = 0; double c0 = 0; std::vector<double> a; std::vector<Term> t;
  bool linear() const { return t.empty(); }
  double eval(const double *x) const;
  void grad(const double *x, double *g) const;           // dense, overwrites
  void hess(const double *x, double w, double *H) const; // dense n*n, adds
  std::vector<int> support() const;
  std::set<std::pair<int, int>> hpat() const;            // lower triangle (r>=c)
  std::string str() const;
};
struct Sos { int type = 1; std::vector<int> idx; std::vector<double> w; int prio = 1; };
struct Prob {
  double inf = DBL_MAX; // the number handed over for an infinite bound
  int n = 0;
  std::vector<int> type; // 0 continuous 1 binary 2 integer
  std::vector<double> lb, ub, x0;
  Func obj; std::vector<Func> con; std::vector<double> gl, gu;
  bool fortran = false; int jacPerm = 0;
  std::vector<Sos> sos;
  std::vector<int> prio, dir; // branching info when not empty
  bool convex = true;
  double boxR = 0; std::vector<double> elb, eub; // enumeration box when bounds are infinite
  int m() const { return (int) con.size(); }
  bool isInt(int i) const { return type[i] != 0; }
  std::string str() const;
  // maximal violation of bounds/constraints at x (integrality apart)
  double violation(const double *x) const;
};
typedef std::shared_ptr<Prob> ProbP;

typedef std::vector<std::pair<std::vector<double>, double>> Vec2;
struct Fin { int status; std::vector<double> x; bool hasx; double obj; };

// counts of evaluations and, when armed, faults injected at given evaluation counts
struct EvalHook {
  long count = 0; long failFrom = -1, failTo = -1; int mode = 0; // mode 1: return false, 2: NaN
  long limit = -1; bool tripped = false; long sigAt = -1;
  std::function<void(long)> at;
  int step();
};

class GenTMINLP : public Bonmin::TMINLP {
public:
  GenTMINLP(ProbP p);
  ProbP p; std::vector<Fin> fins; EvalHook hook; bool declareLinear = true;
  std::vector<int> jr, jc, hr, hc;
  std::string protocol; std::vector<double> lastx; long nFalse = 0; // first breach of the callback contract
  std::function<bool(const double *)> undef; int fault(const double *x); // where the functions are not defined
  void seen(const char *fn, int n, const double *x, bool nx);
  void size(const char *what, long got, long want);
  SosInfo sosi; BranchingInfo br; bool hasUpper = false; Func upper; PerturbInfo *pert = NULL;
  virtual bool get_variables_types(Ipopt::Index n, VariableType *t);
  virtual bool get_variables_linearity(Ipopt::Index n, Ipopt::TNLP::LinearityType *t);
  virtual bool get_constraints_linearity(Ipopt::Index m, Ipopt::TNLP::LinearityType *t);
  virtual bool get_nlp_info(Ipopt::Index &n, Ipopt::Index &m, Ipopt::Index &nj, Ipopt::Index &nh, Ipopt::TNLP::IndexStyleEnum &s);
  virtual bool get_bounds_info(Ipopt::Index n, double *xl, double *xu, Ipopt::Index m, double *gl, double *gu);
  virtual bool get_starting_point(Ipopt::Index n, bool ix, double *x, bool iz, double *zl, double *zu, Ipopt::Index m, bool il, double *l);
  virtual bool eval_f(Ipopt::Index n, const double *x, bool nx, double &v);
  virtual bool eval_grad_f(Ipopt::Index n, const double *x, bool nx, double *g);
  virtual bool eval_g(Ipopt::Index n, const double *x, bool nx, Ipopt::Index m, double *g);
  virtual bool eval_jac_g(Ipopt::Index n, const double *x, bool nx, Ipopt::Index m, Ipopt::Index nele, Ipopt::Index *r, Ipopt::Index *c, double *v);
  virtual bool eval_h(Ipopt::Index n, const double *x, bool nx, double of, Ipopt::Index m, const double *l, bool nl, Ipopt::Index nele, Ipopt::Index *r, Ipopt::Index *c, double *v);
  virtual bool eval_gi(Ipopt::Index n, const double *x, bool nx, Ipopt::Index i, double &gi);
  virtual bool eval_grad_gi(Ipopt::Index n, const double *x, bool nx, Ipopt::Index i, Ipopt::Index &nele, Ipopt::Index *c, double *v);
  virtual void finalize_solution(Bonmin::TMINLP::SolverReturn s, Ipopt::Index n, const double *x, double v);
  virtual const SosInfo *sosConstraints() const { return p->sos.empty() ? NULL : &sosi; }
  virtual const BranchingInfo *branchingInfo() const { return p->prio.empty() && p->dir.empty() ? NULL : &br; }
  virtual bool hasUpperBoundingObjective() { return hasUpper; }
  std::vector<std::pair<std::vector<double>, double>> *upperSeen = NULL;
  virtual bool eval_upper_bound_f(Ipopt::Index n, const double *x, double &v) { v = upper.eval(x); if (upperSeen) upperSeen->push_back({std::vector<double>(x, x + n), v}); return true; }
  virtual const PerturbInfo *perturbInfo() const { return pert; }
  virtual bool hasLinearObjective() { return declareLinear && p->obj.linear(); }
};

struct GenOpt {
  int maxN = 4, maxM = 3; int maxPts = 1500;
  bool mixed = false, allowNonconvex = false, allowEq = true, allowInf = false, allowFree = false, allowSos = false, allowInfeas = true;
  int linearOnlyPct = 15;  // chance that a problem is a pure MILP
  int boundInt = 4;        // magnitude of integer bounds
  bool wantInfeasible = false;
  bool binaryOnly = false;
  bool infRep = true;      // infinite bounds are sometimes written as 1e20 or 1e30, as Ipopt allows
  bool contOnly = false;   // with mixed: no integer variable at all
};
// structure functions
Func genFunc(pbt::Case &c, const Prob &p, bool linear, int sign /* +1 convex, -1 concave, 0 any */, bool rich = true);
ProbP genProb(pbt::Case &c, const GenOpt &o);

struct Oracle {
  bool decided = false, feasible = false; double best = 0; std::vector<double> x; long points = 0, feas = 0; double second = 1e300, runnerUp = -1e300; /* value of the second best point, ties count */ double margin = 1e300;
};
Oracle bruteForce(const Prob &p);              // pure integer
Oracle mixedOracle(const Prob &p);             // integers enumerated, Ipopt on the rest
// reference NLP solve with bounds; returns status 0 ok, 1 infeasible, 2 undecided
bool ipoptSaysInfeasible(const Prob &p); // the continuous relaxation, from the starting point of the problem
int refNlp(const Prob &p, const std::vector<double> &lb, const std::vector<double> &ub, double &val, std::vector<double> &x);

struct Opts { std::vector<std::pair<std::string, std::string>> o; void set(const std::string &k, const std::string &v) { o.push_back({k, v}); } std::string str() const; };

struct Outcome {
  bool threw = false; std::string exc; int status = -99; bool hasSol = false; std::vector<double> x; double obj = 0, bound = 0; int nodes = 0, iters = 0;
  std::vector<Fin> fins; long evals = 0, initEvals = 0; std::string protocol; long nFalse = 0; double contRel = 0; bool setupFailed = false; bool evalLimit = false; int mip = -1;
};
enum { S_SUCCESS = 0, S_INFEASIBLE, S_UNBOUNDED, S_LIMIT, S_INTERRUPT, S_ERROR };
struct HeurRec { std::string id; double before, after; std::vector<double> x; };
struct SolveCtl {
  std::vector<HeurRec> *heur = NULL; // every solution a primal heuristic hands over
  std::function<void(GenTMINLP *)> prep, arm; long evalLimit = -1;
};
Outcome solveBonmin(ProbP p, const Opts &o, const SolveCtl *ctl = NULL);
const char *statusName(int s);
// consistency of anything the solver reports as a solution; throws via c.fail
void checkReported(pbt::Case &c, const Prob &p, const Outcome &r, double tolScale = 1.0);
extern const char *ALGOS[6];
#endif
