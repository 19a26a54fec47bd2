// The documented options (doc/options_list_bonmin_content.tex): name, type, default, range, strict ends, values.
struct OptDoc { const char *name; char type; const char *def; double lo, hi; int lostrict, histrict; const char *values; };
static const OptDoc OPTDOC[] = {
  {"algorithm", 'S', "B-BB", 0, 0, 0, 0, "B-BB|B-OA|B-QG|B-Hyb|B-Ecp|B-iFP"},
  {"allowable_fraction_gap", 'F', "0", -1e20, 1e20, 0, 0, ""},
  {"allowable_gap", 'F', "0", -1e20, 1e20, 0, 0, ""},
  {"cutoff", 'F', "1e100", -1e100, 1e100, 0, 0, ""},
  {"cutoff_decr", 'F', "1e-05", -1e10, 1e10, 0, 0, ""},
  {"enable_dynamic_nlp", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"integer_tolerance", 'F', "1e-06", 0, HUGE_VAL, 1, 1, ""},
  {"iteration_limit", 'I', "2147483647", 0, HUGE_VAL, 0, 1, ""},
  {"nlp_failure_behavior", 'S', "stop", 0, 0, 0, 0, "stop|fathom"},
  {"node_comparison", 'S', "best-bound", 0, 0, 0, 0, "best-bound|depth-first|breadth-first|dynamic|best-guess"},
  {"node_limit", 'I', "2147483647", 0, HUGE_VAL, 0, 1, ""},
  {"num_cut_passes", 'I', "1", 0, HUGE_VAL, 0, 1, ""},
  {"num_cut_passes_at_root", 'I', "20", 0, HUGE_VAL, 0, 1, ""},
  {"number_before_trust", 'I', "8", 0, HUGE_VAL, 0, 1, ""},
  {"number_strong_branch", 'I', "20", 0, HUGE_VAL, 0, 1, ""},
  {"random_generator_seed", 'I', "0", -1, HUGE_VAL, 0, 1, ""},
  {"read_solution_file", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"solution_limit", 'I', "2147483647", 0, HUGE_VAL, 0, 1, ""},
  {"sos_constraints", 'S', "enable", 0, 0, 0, 0, "enable|disable"},
  {"time_limit", 'F', "1e10", 0, HUGE_VAL, 0, 1, ""},
  {"tree_search_strategy", 'S', "probed-dive", 0, 0, 0, 0, "top-node|dive|probed-dive|dfs-dive|dfs-dive-dynamic"},
  {"variable_selection", 'S', "strong-branching", 0, 0, 0, 0, "most-fractional|strong-branching|reliability-branching|qp-strong-branching|lp-strong-branching|nlp-strong-branching|osi-simple|osi-strong|random"},
  {"ecp_abs_tol", 'F', "1e-06", 0, HUGE_VAL, 0, 1, ""},
  {"ecp_max_rounds", 'I', "5", 0, HUGE_VAL, 0, 1, ""},
  {"ecp_probability_factor", 'F', "10", -HUGE_VAL, HUGE_VAL, 1, 1, ""},
  {"ecp_rel_tol", 'F', "0", 0, HUGE_VAL, 0, 1, ""},
  {"filmint_ecp_cuts", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"feas_check_cut_types", 'S', "outer-approx", 0, 0, 0, 0, "outer-approx|Benders"},
  {"feas_check_discard_policy", 'S', "detect-cycles", 0, 0, 0, 0, "detect-cycles|keep-all|treated-as-normal"},
  {"generate_benders_after_so_many_oa", 'I', "5000", 0, HUGE_VAL, 0, 1, ""},
  {"cpx_parallel_strategy", 'I', "0", -1, 1, 0, 0, ""},
  {"milp_solver", 'S', "Cbc_D", 0, 0, 0, 0, "Cbc_D|Cbc_Par|Cplex"},
  {"milp_strategy", 'S', "solve_to_optimality", 0, 0, 0, 0, "find_good_sol|solve_to_optimality"},
  {"number_cpx_threads", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"2mir_cuts", 'I', "0", -100, HUGE_VAL, 0, 1, ""},
  {"Gomory_cuts", 'I', "-5", -100, HUGE_VAL, 0, 1, ""},
  {"clique_cuts", 'I', "-5", -100, HUGE_VAL, 0, 1, ""},
  {"cover_cuts", 'I', "0", -100, HUGE_VAL, 0, 1, ""},
  {"flow_cover_cuts", 'I', "-5", -100, HUGE_VAL, 0, 1, ""},
  {"lift_and_project_cuts", 'I', "0", -100, HUGE_VAL, 0, 1, ""},
  {"mir_cuts", 'I', "-5", -100, HUGE_VAL, 0, 1, ""},
  {"reduce_and_split_cuts", 'I', "0", -100, HUGE_VAL, 0, 1, ""},
  {"nlp_solver", 'S', "Ipopt", 0, 0, 0, 0, "Ipopt|filterSQP|all"},
  {"warm_start", 'S', "none", 0, 0, 0, 0, "none|fake_basis|optimum|interior_point"},
  {"max_consecutive_failures", 'I', "10", 0, HUGE_VAL, 0, 1, ""},
  {"max_random_point_radius", 'F', "100000", 0, HUGE_VAL, 1, 1, ""},
  {"num_iterations_suspect", 'I', "-1", -1, HUGE_VAL, 0, 1, ""},
  {"num_retry_unsolved_random_point", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"random_point_perturbation_interval", 'F', "1", 0, HUGE_VAL, 1, 1, ""},
  {"random_point_type", 'S', "Jon", 0, 0, 0, 0, "Jon|Andreas|Claudia"},
  {"resolve_on_small_infeasibility", 'F', "0", 0, HUGE_VAL, 0, 1, ""},
  {"nlp_solve_frequency", 'I', "10", 0, HUGE_VAL, 0, 1, ""},
  {"nlp_solve_max_depth", 'I', "10", 0, HUGE_VAL, 0, 1, ""},
  {"nlp_solves_per_depth", 'F', "1e100", 0, HUGE_VAL, 0, 1, ""},
  {"coeff_var_threshold", 'F', "0.1", 0, HUGE_VAL, 0, 1, ""},
  {"dynamic_def_cutoff_decr", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"first_perc_for_cutoff_decr", 'F', "-0.02", -HUGE_VAL, HUGE_VAL, 1, 1, ""},
  {"max_consecutive_infeasible", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"num_resolve_at_infeasibles", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"num_resolve_at_node", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"num_resolve_at_root", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"second_perc_for_cutoff_decr", 'F', "-0.05", -HUGE_VAL, HUGE_VAL, 1, 1, ""},
  {"oa_decomposition", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"add_only_violated_oa", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"oa_cuts_scope", 'S', "global", 0, 0, 0, 0, "local|global"},
  {"oa_rhs_relax", 'F', "1e-08", -0, HUGE_VAL, 0, 1, ""},
  {"tiny_element", 'F', "1e-08", -0, HUGE_VAL, 0, 1, ""},
  {"very_tiny_element", 'F', "1e-17", -0, HUGE_VAL, 0, 1, ""},
  {"bb_log_interval", 'I', "100", 0, HUGE_VAL, 0, 1, ""},
  {"bb_log_level", 'I', "1", 0, 5, 0, 0, ""},
  {"file_solution", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"fp_log_frequency", 'F', "100", 0, HUGE_VAL, 1, 1, ""},
  {"fp_log_level", 'I', "1", 0, 2, 0, 0, ""},
  {"lp_log_level", 'I', "0", 0, 4, 0, 0, ""},
  {"milp_log_level", 'I', "0", 0, 4, 0, 0, ""},
  {"nlp_log_at_root", 'I', "0", 0, 12, 0, 0, ""},
  {"nlp_log_level", 'I', "1", 0, 2, 0, 0, ""},
  {"oa_cuts_log_level", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"oa_log_frequency", 'F', "100", 0, HUGE_VAL, 1, 1, ""},
  {"oa_log_level", 'I', "1", 0, 2, 0, 0, ""},
  {"feasibility_pump_objective_norm", 'I', "1", 1, 2, 0, 0, ""},
  {"fp_pass_infeasible", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_RINS", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_dive_MIP_fractional", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_dive_MIP_vectorLength", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_dive_fractional", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_dive_vectorLength", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"heuristic_feasibility_pump", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"pump_for_minlp", 'S', "no", 0, 0, 0, 0, "no|yes"},
  {"candidate_sort_criterion", 'S', "best-ps-cost", 0, 0, 0, 0, "best-ps-cost|worst-ps-cost|most-fractional|least-fractional"},
  {"maxmin_crit_have_sol", 'F', "0.1", 0, 1, 0, 0, ""},
  {"maxmin_crit_no_sol", 'F', "0.7", 0, 1, 0, 0, ""},
  {"min_number_strong_branch", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"number_before_trust_list", 'I', "0", -1, HUGE_VAL, 0, 1, ""},
  {"number_look_ahead", 'I', "0", 0, HUGE_VAL, 0, 1, ""},
  {"number_strong_branch_root", 'I', "2147483647", 0, HUGE_VAL, 0, 1, ""},
  {"setup_pseudo_frac", 'F', "0.5", 0, 1, 0, 0, ""},
  {"trust_strong_branching_for_pseudo_cost", 'S', "yes", 0, 0, 0, 0, "no|yes"},
};
static const int NOPT = sizeof(OPTDOC) / sizeof(OPTDOC[0]);
