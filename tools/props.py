"""The properties: the single source of properties.jsonl and MANIFEST.json (tools/gen.py)
and of what check.py runs. A property names the harness group that decides it."""
PROPS = {}


def P(pid, group, title, statement, over, qtext, why, files, mech, san=False, assumptions=(), note='', observe=None):
    PROPS[pid] = dict(group=group, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, san=san, assumptions=list(assumptions), note=note, observe=observe)


ONE = 'The only test solves one fixed 4-variable problem with default options and looks at the exit code; '
TOL = 'values are compared within 1e-4 relative, the accuracy of the NLP solves'
REF = 'the reference optimum is found by enumerating every integer assignment (continuous parts: the installed Ipopt, convex problems only, called directly)'
S = 'src/CbcBonmin/BonCbc.cpp'
NLP = 'src/Interfaces/BonOsiTMINLPInterface.cpp'
SETUP = 'src/Algorithms/BonBonminSetup.cpp'

P('P01', 'solve', 'Every reported solution is a solution',
  'Whenever a solve hands a point back to the user, at whatever status, that point satisfies variable bounds, constraints and integrality within tolerance, and the objective value reported with it is the objective at that point. A run that reports success always hands back a point, and the final report to the problem object agrees with what the solver object answers.',
  ['inputs', 'configurations'], 'every problem, algorithm, search option, heuristic and stopping limit',
  ONE + 'nothing checks the point that comes back, and no other algorithm, option or limit is ever run.',
  [S, 'src/CbcBonmin/BonCbcNlpStrategy.cpp', NLP, 'src/Algorithms/OaGenerators/BonOaDecBase.cpp', 'src/CbcBonmin/Heuristics/'],
  [('final report and best solution', S), ('incumbents from OA decomposition', 'src/Algorithms/OaGenerators/BonOaDecBase.cpp'), ('heuristic solutions', 'src/CbcBonmin/Heuristics/')],
  observe='finalize_solution and bestSolution/bestObj of the solver object')
P('P02', 'solve', 'Convex problems are solved to global optimality by every algorithm',
  'On a feasible convex problem with bounded integer variables each of the six algorithms terminates with success and reports the globally optimal value.',
  ['inputs', 'configurations'], 'every feasible convex MINLP and each of the six algorithms',
  ONE + 'optimality is a statement about all integer points of all problems.',
  [S, SETUP, 'src/Algorithms/OaGenerators/', NLP, 'src/Interfaces/BonTMINLP2OsiLP.cpp'],
  [('tree search and cutoffs', S), ('outer approximation loop', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp'), ('algorithm setup', SETUP)],
  assumptions=[REF, TOL])
P('P03', 'solve', 'Infeasibility is proved exactly when there is no feasible point',
  'A convex problem without integer-feasible point ends with the infeasible status, no point and an infinite bound, with every algorithm and search option, even if its continuous relaxation is feasible.',
  ['inputs', 'configurations'], 'every infeasible convex problem, algorithm and search option',
  ONE + 'no infeasible problem is ever solved.',
  [S, SETUP, 'src/Algorithms/OaGenerators/BonOaFeasChecker.cpp', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp'],
  [('status of the search', S), ('infeasible subproblem cuts', NLP)], assumptions=[REF])
P('P04', 'solve', 'The reported bound never exceeds the optimum',
  'For convex problems the lower bound reported at the end is at most the true optimal value and no reported objective is below it, wherever a node, solution or iteration limit stopped the search. After success the bound equals the objective.',
  ['inputs', 'configurations', 'histories'], 'every convex problem, algorithm, option and stopping point of the search',
  ONE + 'no limit is ever hit and the bound is never looked at.',
  [S, NLP, 'src/Algorithms/OaGenerators/BonOaDecBase.cpp'], [('best possible bound', S), ('continuous relaxation value', S)], assumptions=[REF, TOL])
P('P05', 'solve', 'Limits stop the search and the status says so',
  'With a node, solution, iteration or time limit the run ends, does not process more nodes than allowed, and reports the limit status unless the search was complete. Success and infeasible are reported only when they are true.',
  ['inputs', 'configurations', 'histories'], 'every convex problem, algorithm, option and limit value',
  ONE + 'no limit is ever set.', [S, 'src/Algorithms/BonBabSetupBase.cpp', 'src/Algorithms/OaGenerators/BonOaDecBase.cpp'],
  [('limits handed to the tree search', S), ('mapping of the search status', S)], assumptions=[REF, TOL])
P('P06', 'solve', 'Cutoff and gap options mean what they say',
  'A cutoff below the optimum makes the run end infeasible without a point, a cutoff above it does not change the optimum, and with an absolute or relative gap, or both, or a cutoff decrement the returned value is within that gap of the optimum and never below it.',
  ['inputs', 'configurations'], 'every feasible convex problem, algorithm, cutoff and gap value, sign and magnitude of the optimum included',
  ONE + 'neither a cutoff nor a gap is ever set.', [S, 'src/Algorithms/BonBabSetupBase.cpp', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp', 'src/Algorithms/OaGenerators/BonFpForMinlp.cpp'],
  [('cutoff and gap parameters', S), ('cutoffs of the OA loop', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp')], assumptions=[REF, TOL])
P('P07', 'solve', 'Search options never change the optimum',
  'Node comparison, tree search strategy, variable selection, strong branching, warm start, resolve and cut options change the path of the search on a convex problem, never its status or its optimal value.',
  ['inputs', 'configurations'], 'every convex problem and every combination of documented search options',
  ONE + 'every option stays at its default.', [S, 'src/Algorithms/Branching/', 'src/CbcBonmin/BonCbcNode.cpp', SETUP, 'src/Algorithms/OaGenerators/'],
  [('variable choice', 'src/Algorithms/Branching/BonChooseVariable.cpp'), ('tree strategies', 'src/CbcBonmin/BonDiver.cpp'), ('cut options', 'src/Algorithms/BonBabSetupBase.cpp')],
  assumptions=[REF, TOL])
P('P08', 'solve', 'SOS1 sets are honoured',
  'On a convex problem with special ordered sets of type 1, possibly overlapping, branch-and-bound returns the best point among those with at most one nonzero member per set, or infeasible if there is none.',
  ['inputs', 'configurations'], 'every convex problem with SOS1 sets over integer variables, every branch-and-bound option',
  ONE + 'no test has a set.', [S, 'src/Algorithms/BonBabSetupBase.cpp', 'src/Algorithms/Branching/BonChooseVariable.cpp', 'src/Interfaces/BonTMINLP.hpp'],
  [('sets turned into branching objects', S), ('branching on sets', 'src/Algorithms/Branching/BonChooseVariable.cpp')], assumptions=[REF, TOL])
P('P09', 'iface', 'Cuts and linear relaxations never cut off a feasible point',
  'For a convex problem every outer approximation, single-constraint, strengthened and Benders cut, and every row of the extracted linear relaxation, holds at every feasible point, and is tight where it was taken: a constraint violated at the linearization point gives a row violated there by as much. Bounds, integrality and objective of the relaxation are those of the problem.',
  ['inputs', 'configurations'], 'every convex problem, every linearization point and cut option',
  ONE + 'no test generates a cut and evaluates it.', [NLP, 'src/Interfaces/BonCutStrengthener.cpp', 'src/Interfaces/BonOsiTMINLPInterface.hpp'],
  [('getOuterApproximation, getConstraintOuterApproximation, extractLinearRelaxation, getBendersCut', NLP), ('cut strengthening', 'src/Interfaces/BonCutStrengthener.cpp')], san=True, assumptions=['feasible points are sampled by the generator and by the installed Ipopt', TOL])
P('P11', 'iface', 'The solver interface is the relaxation of what was set',
  'After any sequence of bound, type, start point, limit, warm start, hot start, copy, assignment and solve operations the interface reports exactly what was last set, a solve returns the optimum of the relaxation with those bounds or infeasible when there is none, with a feasible point, matching objective, row activities and multipliers, and operations on one copy never change another.',
  ['inputs', 'histories', 'configurations'], 'every convex problem and every sequence of operations on an interface and its copies',
  ONE + 'the interface is never used directly, copied or re-solved after a change.', [NLP, 'src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/Ipopt/BonIpoptSolver.cpp', 'src/Interfaces/Ipopt/BonIpoptWarmStart.cpp'],
  [('bounds, solves, warm starts, copies', NLP), ('state of the relaxation', 'src/Interfaces/BonTMINLP2TNLP.cpp'), ('warm start storage', 'src/Interfaces/Ipopt/BonIpoptWarmStart.cpp')], san=True, assumptions=[REF, TOL])
P('P18', 'solve', 'Primal heuristics never change the optimum',
  'Switching on any subset of the documented primal heuristics leaves status and optimal value of a convex problem unchanged with every algorithm. Every solution a heuristic hands to the search is integer, satisfies bounds and constraints, carries the objective value of its point and improves on the incumbent.',
  ['inputs', 'configurations'], 'every convex problem, algorithm and subset of heuristics',
  ONE + 'no heuristic is ever switched on.', ['src/CbcBonmin/Heuristics/', 'src/Algorithms/OaGenerators/BonFpForMinlp.cpp', SETUP],
  [('heuristics', 'src/CbcBonmin/Heuristics/')], assumptions=[REF, TOL])
P('P10', 'solve', 'The user problem is called as its interface promises',
  'During any solve the callbacks of the user problem get vectors of the announced dimensions, finite points and the announced number of nonzeros, and new_x is false only if the point is the one of the previous evaluation call, so a problem that caches function values is evaluated correctly.',
  ['inputs', 'configurations', 'histories'], 'every problem, algorithm, option, heuristic and sequence of evaluations in a solve',
  ONE + 'that problem ignores new_x and never checks its arguments.',
  ['src/Interfaces/BonTMINLP2TNLP.cpp', NLP, 'src/CbcBonmin/Heuristics/', 'src/Interfaces/BonTNLP2FPNLP.cpp'],
  [('forwarding of evaluations', 'src/Interfaces/BonTMINLP2TNLP.cpp'), ('evaluations by heuristics', 'src/CbcBonmin/Heuristics/'), ('cut generation', NLP)],
  note='the callback contract of the problem class', observe='the TMINLP callbacks')
P('P12', 'iface', 'The NLP given to the solver is the problem at its current bounds',
  'After any history of bound, start point, type, fixing, warm start, finalize and copy operations the adapter between problem and NLP solver returns the dimensions, bounds, start, functions, Jacobian, Hessian and stored solution of the problem under exactly the last values set, its copies are independent, and a failed evaluation of the problem is reported as failed.',
  ['inputs', 'histories'], 'every problem and every sequence of operations on the adapter and its copies',
  ONE + 'the adapter is never looked at.', ['src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTMINLP2TNLP.hpp'],
  [('bounds, start, evaluation, finalize_solution', 'src/Interfaces/BonTMINLP2TNLP.cpp')], san=True, note='a reference model of bounds, start point and functions')
P('P13', 'iface', 'Quadratic cuts become exactly the constraints they state',
  'After any sequence of adding and removing linear and quadratic cuts, and of copies, the NLP with cuts has the original constraints followed by exactly the cuts that remain, with their bounds, values, gradients and Hessians, the structure announced matches the values, and failed evaluations are reported as failed.',
  ['inputs', 'histories'], 'every problem, every set of cuts in any storage form, every sequence of add and remove operations',
  ONE + 'no quadratic cut is ever created.', ['src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp', 'src/Algorithms/QuadCuts/BonQuadRow.cpp', 'src/Algorithms/QuadCuts/BonQuadCut.cpp', 'src/Algorithms/QuadCuts/BonArraysHelpers.cpp'],
  [('rows added and removed', 'src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp'), ('one quadratic row', 'src/Algorithms/QuadCuts/BonQuadRow.cpp')], san=True, note='a dense reference model of the cut list')
P('P14', 'iface', 'The linear-objective form is equivalent to the problem',
  'Moving a nonlinear objective into an epigraph constraint with an extra variable gives a problem whose functions, derivatives, bounds, types, linearity, start, failures of evaluation and reported solutions are those of the original with the objective as first row.',
  ['inputs'], 'every problem, point and index style',
  ONE + 'the reformulation is never built.', ['src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp'],
  [('epigraph reformulation', 'src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp')], san=True, note='the epigraph form computed independently')
P('P15', 'iface', 'The feasibility problem is distance plus the added rows',
  'The problem used for feasibility pumps and feasibility cuts has, after any sequence of switching its distance objective, norm, weights, cutoff row and local-branching row on and off and of copies, exactly that objective, the original constraints and those rows, with consistent derivatives, passes on failed evaluations, and hands solutions back without the added rows.',
  ['inputs', 'histories'], 'every problem, every set and target of distance variables, every sequence of switches',
  ONE + 'no feasibility problem is ever formed.', ['src/Interfaces/BonTNLP2FPNLP.cpp', 'src/Interfaces/BonTNLP2FPNLP.hpp'],
  [('objective, rows and derivatives', 'src/Interfaces/BonTNLP2FPNLP.cpp')], san=True, note='a reference model of the distance objective and rows')
P('P16', 'misc', 'Options are validated, resolved and obeyed as documented',
  'Every documented option exists with its documented type, range and default; a value in range is accepted by call, string and file, with or without the bonmin. prefix (the prefixed one wins), a value out of range or an unknown name is rejected; and what was accepted is what the setup, its copies, its cut generators, its heuristics and the search are given. A search started by a heuristic takes the options with its own prefix, then those without prefix, then the defaults.',
  ['inputs', 'configurations', 'histories'], 'every sequence of settings of every documented option, through each of the three ways of setting it, and every algorithm',
  ONE + 'no other option, no invalid value and no option file is ever used.',
  ['src/Algorithms/BonBabSetupBase.cpp', SETUP, 'src/Interfaces/BonRegisteredOptions.cpp', S],
  [('registration and gathering of options', 'src/Algorithms/BonBabSetupBase.cpp'), ('cut generators and heuristics by algorithm', SETUP), ('parameters of the search', S)],
  note='the documented table of names, types, ranges and defaults')
P('P17', 'misc', 'Bounds, start points and names written to files are read back exactly',
  'The files written for a difficult subproblem, applied to a fresh copy of the problem, reproduce its bounds, its start point and its multipliers to the last digit, and the model file names the same bounds; a file of names gives every name its index, however often the reader is used. Missing, damaged or wrongly sized files are reported, not applied, and crash nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'every subproblem (bounds, start point, multipliers, names), both writers, every damaged file',
  ONE + 'no file is ever written or read.',
  ['src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTNLPSolver.cpp', 'src/Interfaces/BonBoundsReader.cpp', 'src/Interfaces/BonStartPointReader.cpp', 'src/Interfaces/BonColReader.cpp'],
  [('writers', 'src/Interfaces/BonTMINLP2TNLP.cpp'), ('second writer', 'src/Interfaces/BonTNLPSolver.cpp'), ('readers', 'src/Interfaces/BonBoundsReader.cpp')],
  san=True, note='a round trip through the files')
P('P21', 'misc', 'The node pools of the tree search lose and invent no node',
  'Through every history of a tree search (taking the best node, branching, putting parent and child back, new incumbents, changes of diving mode, cleaning, copying) a diving tree holds exactly the open nodes: each is handed out once, size and emptiness are right for every caller, and the best possible objective is the minimum over the open nodes. A dive goes on with the last child and, without one, with the best node.',
  ['histories', 'configurations'], 'every history, each of the three diving trees and all their parameters',
  ONE + 'it uses the default tree, not the diving ones.', ['src/CbcBonmin/BonDiver.cpp', 'src/CbcBonmin/BonDiver.hpp'],
  [('diving trees and their comparison', 'src/CbcBonmin/BonDiver.cpp')], san=True, note='a model of the set of open nodes')
P('P22', 'solve', 'Problems without integer variables are solved as the NLP they are',
  'A convex problem without integer variables ends, with every algorithm and option, in success with the optimal value, a feasible point and a bound equal to it, or in infeasible if it has no feasible point. If its objective is unbounded below, the run ends with the unbounded status and no point.',
  ['inputs', 'configurations'], 'every continuous convex problem, feasible, infeasible or unbounded, algorithm, search option, heuristic and limit',
  ONE + 'a problem without integer variables takes code of its own at the end of the search that no test reaches.',
  [S, SETUP, NLP], [('search without branching objects', S), ('status of the relaxation', NLP)], assumptions=[REF, TOL])
P('P23', 'solve', 'A second objective values every integer solution of the search',
  'When the problem states a second, upper bounding objective, B-BB searches by the first objective and evaluates the second one only at integer feasible points; it reports the point with the smallest second value among all it found, with exactly that value, never worse than the value at a unique optimum of the first objective, and the bound and status stay those of the first objective. A second objective equal to the first one, or shifted by a constant, changes nothing but that constant.',
  ['inputs', 'configurations'], 'every convex problem, second objective and search option',
  ONE + 'it states no second objective, so the code for it never runs.',
  [NLP, S, 'src/Interfaces/BonAuxInfos.hpp', 'src/Interfaces/BonTMINLP2TNLP.cpp'],
  [('evaluation at integer solutions', NLP), ('choice of the reported solution', S), ('best values shared by the copies of the solver', 'src/Interfaces/BonAuxInfos.hpp')], assumptions=[REF, TOL])
P('P24', 'misc', 'Problem data given by the user can be copied and replaced freely',
  'Copies of SOS sets, branching information and perturbation radii equal the original and stay independent of it: changing, replacing or destroying one never alters another and touches no freed or foreign memory.',
  ['inputs', 'histories'], 'every content and every history of copies, changes and deletions',
  ONE + 'none of these objects is ever copied.', ['src/Interfaces/BonTMINLP.hpp', 'src/Interfaces/BonTMINLP.cpp'],
  [('value types of the user problem', 'src/Interfaces/BonTMINLP.cpp')], san=True, note='a model of the values held by each object')
P('P19', 'solve', 'Solves in one process do not disturb each other',
  'In every history of creating, copying and solving setups, of one or several problems and algorithms in one process, each solve returns the status and optimal value that its problem has: a copy of a setup solves as the original does, solving again gives the same answer, and no solve depends on what ran before.',
  ['histories', 'inputs', 'configurations'], 'every history of setups, copies and solves over several problems and algorithms',
  ONE + 'it solves a single time and exits.', [S, 'src/Algorithms/BonBabSetupBase.cpp', SETUP, NLP],
  [('copies of setups', 'src/Algorithms/BonBabSetupBase.cpp'), ('state kept by the search', S)],
  assumptions=[REF, TOL, 'a setup is destroyed after its copies, and each solve has its own Bab object'])
P('P25', 'solve', 'An interruption at any moment stops the search and proves nothing',
  'If the user interrupts the search (SIGINT) at any evaluation, it ends with the interrupted status or a correct final one, hands back nothing but a feasible point with its objective, and a lower bound that is at most the optimum. The interruption does not affect the next solve.',
  ['crash_points', 'inputs', 'configurations'], 'every evaluation at which the signal may arrive, every convex problem, algorithm, option and heuristic',
  ONE + 'it is never interrupted.', [S, NLP, 'src/Interfaces/Ipopt/BonIpoptSolver.cpp', 'src/Algorithms/OaGenerators/'],
  [('signal handler and final status', S), ('abandoned subproblems', NLP)], assumptions=[REF, TOL, 'the signal arrives during the search (the handler is installed by it), at a function evaluation'])
P('P20', 'solve', 'Failing evaluations never turn into a false answer',
  'When function evaluations fail or return NaN, for a while, for good or in a part of the space, nonlinear branch-and-bound ends or throws its error, and whatever point it reports is feasible, in the domain of the functions and has the objective reported. Unless failed nodes are to be fathomed, success, infeasibility and the bound it reports are true.',
  ['fault_sequences', 'inputs', 'configurations'], 'every window of failing evaluations, kind of failure and half space where functions are undefined',
  ONE + 'its functions never fail.', [S, 'src/Interfaces/BonTNLPSolver.cpp', NLP, 'src/CbcBonmin/BonCbcNlpStrategy.cpp', 'src/Interfaces/Ipopt/BonIpoptSolver.cpp'],
  [('treatment of unsolved subproblems', 'src/CbcBonmin/BonCbcNlpStrategy.cpp'), ('problems with all variables fixed', 'src/Interfaces/BonTNLPSolver.cpp'), ('abandoned solves', NLP)],
  assumptions=[REF, TOL, 'derivatives may fail but are not NaN (Ipopt hands them to its linear solver unchecked)', 'after an error thrown through Cbc the search object is not destroyed (Cbc is not exception safe)'])
