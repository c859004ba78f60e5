#include "optgen.hpp"
namespace nlp
{
void gen_algo_options(pbt::Ctx& c, Opts& o, int mask, double rho)
{
   pbt::Src& s = c.src;
   auto str = [&](const char* name, std::initializer_list<const char*> v)
   {
      if( s.flip(rho) )
         o.S(name, *(v.begin() + (long)s.below(v.size())));
   };
   auto num = [&](const char* name, std::initializer_list<double> v)
   {
      if( s.flip(rho) )
         o.N(name, *(v.begin() + (long)s.below(v.size())));
   };
   auto inte = [&](const char* name, std::initializer_list<int> v)
   {
      if( s.flip(rho) )
         o.I(name, *(v.begin() + (long)s.below(v.size())));
   };
   bool mehrotra = (mask & OG_MEHROTRA) && s.flip(0.1);
   if( mehrotra )
   {
      o.S("mehrotra_algorithm", "yes").S("mu_strategy", "adaptive").S("mu_oracle", "probing");
      mask &= ~(OG_BARRIER | OG_LS);
   }
   bool penalty = false;
   if( mask & OG_PENALTYLS && !mehrotra && s.flip(rho) )
   {
      penalty = true;
      if( s.flip() )
         o.S("line_search_method", "cg-penalty");
      else
         o.S("line_search_method", "penalty").I("watchdog_shortened_iter_trigger", 0);
   }
   if( mask & OG_BARRIER )
   {
      if( s.flip(0.5) )
      {
         o.S("mu_strategy", "adaptive");
         str("mu_oracle", {"quality-function", "probing", "loqo"});
         str("fixed_mu_oracle", {"average_compl", "probing", "loqo", "quality-function"});
         str("adaptive_mu_globalization", {"obj-constr-filter", "kkt-error", "never-monotone-mode"});
         str("adaptive_mu_restore_previous_iterate", {"no", "yes"});
         str("adaptive_mu_kkt_norm_type", {"2-norm-squared", "1-norm", "max-norm", "2-norm"});
         inte("adaptive_mu_kkterror_red_iters", {4, 0, 2});
         num("adaptive_mu_monotone_init_factor", {0.8, 0.3});
         str("quality_function_norm_type", {"2-norm-squared", "1-norm", "max-norm", "2-norm"});
         str("quality_function_centrality", {"none", "log", "reciprocal", "cubed-reciprocal"});
         str("quality_function_balancing_term", {"none", "cubic"});
         inte("quality_function_max_section_steps", {8, 0, 3});
         num("mu_max_fact", {1e3, 10.});
         num("mu_min", {1e-11, 1e-12});
         if( mask & OG_RISKY )
            num("sigma_max", {100., 1.});
      }
      num("mu_init", {0.1, 1., 1e-3, 10.});
      num("barrier_tol_factor", {10., 1., 100.});
      num("mu_linear_decrease_factor", {0.2, 0.5, 0.1});
      num("mu_superlinear_decrease_power", {1.5, 1.1, 1.9});
      str("mu_allow_fast_monotone_decrease", {"yes", "no"});
      num("tau_min", {0.99, 0.9, 0.995});
   }
   if( mask & OG_LS )
   {
      str("alpha_for_y", {"primal", "bound-mult", "min", "max", "full", "min-dual-infeas", "safer-min-dual-infeas", "primal-and-full", "dual-and-full"});
      inte("max_soc", {4, 0, 1, 8});
      if( !penalty )
         inte("watchdog_shortened_iter_trigger", {10, 0, 1, 3});
      inte("watchdog_trial_iter_max", {3, 1, 5});
      num("alpha_red_factor", {0.5, 0.25, 0.8});
      if( !penalty && s.flip(rho) )
      {
         o.S("corrector_type", s.flip() ? "affine" : "primal-dual");
         str("skip_corr_if_neg_curv", {"yes", "no"});
         str("skip_corr_in_monotone_mode", {"yes", "no"});
      }
      str("recalc_y", {"no", "yes"});
      num("recalc_y_feas_tol", {1e-6, 1e-2});
      num("kappa_sigma", {1e10, 1e2, 0.5});
      inte("soc_method", {0, 1});
      num("gamma_theta", {1e-5, 1e-3});
      num("gamma_phi", {1e-8, 1e-4});
      num("eta_phi", {1e-8, 1e-4});
      num("theta_max_fact", {1e4, 10.});
      num("kappa_d", {1e-5, 0., 1e-4});
      str("constraint_violation_norm_type", {"1-norm", "2-norm", "max-norm"});
      inte("filter_reset_trigger", {5, 1});
      inte("max_filter_resets", {5, 0});
      num("obj_max_inc", {5., 2.});
      num("soft_resto_pderror_reduction_factor", {0.9999, 0., 0.5});
      inte("max_soft_resto_iters", {10, 0, 1});
      if( mask & OG_RISKY )
      {
         str("accept_every_trial_step", {"no", "yes"});
         inte("accept_after_max_steps", {-1, 0, 2});
      }
   }
   if( mask & OG_LINSOL )
   {
      str("linear_system_scaling", {"none", "slack-based"});
      str("linear_scaling_on_demand", {"yes", "no"});
      num("mumps_pivtol", {1e-6, 1e-2, 0.1});
      inte("mumps_scaling", {77, 0, 1, 7, 8});
      inte("mumps_permuting_scaling", {7, 0});
      inte("mumps_pivot_order", {7, 0, 2, 6});
      inte("min_refinement_steps", {1, 0, 3});
      inte("max_refinement_steps", {10, 4});
      str("perturb_always_cd", {"no", "yes"});
      str("fast_step_computation", {"no", "yes"});
      num("neg_curv_test_tol", {0., 1e-6});
      str("neg_curv_test_reg", {"yes", "no"});
      num("first_hessian_perturbation", {1e-4, 1e-2, 1e-8});
   }
   if( mask & OG_QN && s.flip(0.25) )
   {
      o.S("hessian_approximation", "limited-memory");
      str("limited_memory_update_type", {"bfgs", "sr1"});
      inte("limited_memory_max_history", {6, 0, 1, 2, 12});
      str("limited_memory_initialization", {"scalar1", "scalar2", "scalar3", "scalar4", "constant"});
      str("limited_memory_aug_solver", {"sherman-morrison", "extended"});
      inte("limited_memory_max_skipping", {2, 1});
      str("limited_memory_special_for_resto", {"no", "yes"});
      str("hessian_approximation_space", {"nonlinear-variables", "all-variables"});
   }
   if( mask & OG_INIT )
   {
      num("bound_push", {1e-2, 1e-6, 1.});
      num("bound_frac", {1e-2, 1e-6, 0.4});
      num("slack_bound_push", {1e-2, 1e-6, 1.});
      num("slack_bound_frac", {1e-2, 1e-6, 0.4});
      num("constr_mult_init_max", {1e3, 0., 1e-2});
      num("bound_mult_init_val", {1., 1e-2, 100.});
      str("bound_mult_init_method", {"constant", "mu-based"});
      str("least_square_init_primal", {"no", "yes"});
      str("least_square_init_duals", {"no", "yes"});
   }
   if( mask & OG_SCALING )
   {
      str("nlp_scaling_method", {"gradient-based", "none"});
      num("nlp_scaling_max_gradient", {100., 1., 1e4});
      num("nlp_scaling_obj_target_gradient", {0., 1., 50.});
      num("nlp_scaling_constr_target_gradient", {0., 1., 50.});
      num("obj_scaling_factor", {1., 0.1, 20.});
   }
   if( mask & OG_RESTO )
   {
      str("expect_infeasible_problem", {"no", "yes"});
      str("start_with_resto", {"no", "yes"});
      num("required_infeasibility_reduction", {0.9, 0.5});
      str("evaluate_orig_obj_at_resto_trial", {"yes", "no"});
      num("resto_penalty_parameter", {1e3, 10.});
      num("resto_proximity_weight", {1., 0.});
      num("bound_mult_reset_threshold", {1e3, 0.});
      num("constr_mult_reset_threshold", {0., 1e3});
      if( s.flip(rho) )
         o.S("resto.mu_strategy", s.flip() ? "adaptive" : "monotone");
   }
   if( mask & OG_FIXED )
      str("fixed_variable_treatment", {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"});
   if( mask & OG_BOUNDRELAX )
   {
      num("bound_relax_factor", {1e-8, 0., 1e-6});
      str("honor_original_bounds", {"no", "yes"});
   }
}
}
