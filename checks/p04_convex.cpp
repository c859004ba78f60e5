// P04: every algorithmic configuration solves convex problems to the known optimum.
#include "nlp.hpp"
#include "optgen.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void compare(Ctx& c, const Problem& p, const Outcome& r, double xt, double yt)
{
   double cx, cy;
   known_cond(p, cx, cy);
   xt *= cx;
   yt *= cy;
   double xm = 1 + maxabs(p.xs), ym = 1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu);
   PBT_CHECK(c, maxdiff(r.x, p.xs) <= xt * xm, "x", "reported success but x=%s instead of %s (difference %g)", vs(r.x).c_str(), vs(p.xs).c_str(), maxdiff(r.x, p.xs));
   PBT_CHECK(c, std::fabs(r.obj - p.fs) <= xt * (ym * p.n + std::fabs(p.fs)), "f", "objective %.12g instead of %.12g", r.obj, p.fs);
   PBT_CHECK(c, maxdiff(r.lam, p.lam) <= yt * ym, "lambda", "lambda=%s instead of %s", vs(r.lam).c_str(), vs(p.lam).c_str());
   PBT_CHECK(c, maxdiff(r.zl, p.zl) <= yt * ym && maxdiff(r.zu, p.zu) <= yt * ym, "z", "z=%s/%s instead of %s/%s", vs(r.zl).c_str(), vs(r.zu).c_str(), vs(p.zl).c_str(), vs(p.zu).c_str());
}
static Problem gen(Ctx& c, bool qp)
{
   GenCfg g;
   g.nmin = 1;
   g.nmax = c.src.flip(0.1) ? 20 : 7;
   g.mmax = g.nmax > 7 ? 12 : 5;
   g.fixed = c.src.flip(0.25);
   g.quadratic_only = qp;
   g.nonlinear_constr = !qp;
   return gen_convex(c, g);
}
static void f_default(Ctx& c)
{
   Problem p = gen(c, c.src.flip(0.3));
   Opts o = base_opts();
   if( c.src.flip(0.3) )
      o.S("mu_strategy", "adaptive");
   if( c.src.flip(0.2) )
      o.S("nlp_scaling_method", "none");
   c.desc << p.show() << o.show() << "\n";
   Outcome r = solve(p, o);
   c.desc << " -> " << statname(r.app) << " in " << r.iter_count << " iterations\n";
   c.nontrivial = p.m > 0;
   PBT_CHECK(c, r.app == Solve_Succeeded, "not-solved", "default configuration ended with %s on a strictly convex problem with a Slater point", statname(r.app));
   PBT_CHECK(c, r.nfinal == 1, "final", "finalize_solution called %d times", r.nfinal);
   compare(c, p, r, 2e-5, 2e-4);
}
// a single configuration dimension at a time: also these must succeed
static void f_single(Ctx& c)
{
   Problem p = gen(c, c.src.flip(0.5));
   Opts o = base_opts();
   int k = c.src.integer(0, 33);
   switch( k )
   {
      case 0: break;
      case 1: o.S("mu_strategy", "adaptive").S("mu_oracle", "probing"); break;
      case 2: o.S("mu_strategy", "adaptive").S("mu_oracle", "loqo"); break;
      case 3: o.S("mu_strategy", "adaptive").S("mu_oracle", "quality-function").S("quality_function_norm_type", "1-norm"); break;
      case 4: o.S("mu_strategy", "adaptive").S("quality_function_norm_type", "max-norm"); break;
      case 5: o.S("mu_strategy", "adaptive").S("quality_function_norm_type", "2-norm"); break;
      case 6: o.S("mu_strategy", "adaptive").S("quality_function_centrality", "log"); break;
      case 7: o.S("mu_strategy", "adaptive").S("quality_function_balancing_term", "cubic"); break;
      case 8: o.S("mu_strategy", "adaptive").S("adaptive_mu_globalization", "kkt-error"); break;
      case 9: o.S("mu_strategy", "adaptive").S("adaptive_mu_globalization", "never-monotone-mode"); break;
      case 10: o.S("mu_strategy", "adaptive").S("fixed_mu_oracle", "probing"); break;
      case 11: o.S("alpha_for_y", "bound-mult"); break;
      case 12: o.S("alpha_for_y", "full"); break;
      case 13: o.S("alpha_for_y", "min-dual-infeas"); break;
      case 14: o.S("alpha_for_y", "safer-min-dual-infeas"); break;
      case 15: o.S("alpha_for_y", "primal-and-full"); break;
      case 16: o.I("max_soc", 0); break;
      case 17: o.S("recalc_y", "yes"); break;
      case 18: o.S("linear_system_scaling", "slack-based").S("linear_scaling_on_demand", "no"); break;
      case 19: o.S("perturb_always_cd", "yes"); break;
      case 20: o.S("least_square_init_primal", "yes"); break;
      case 21: o.S("least_square_init_duals", "yes"); break;
      case 22: o.S("bound_mult_init_method", "mu-based"); break;
      case 23: o.N("nlp_scaling_max_gradient", 1.); break;
      case 24: o.S("fixed_variable_treatment", "make_constraint"); break;
      case 25: o.N("kappa_d", 0.); break;
      case 26: o.S("expect_infeasible_problem", "yes"); break;
      case 27: o.S("mu_strategy", "adaptive").S("corrector_type", "affine"); break;
      case 28: o.S("mu_strategy", "adaptive").S("corrector_type", "primal-dual"); break;
      case 29: o.S("fast_step_computation", "yes"); break;
      case 30: o.N("neg_curv_test_tol", 1e-11); break;
      case 31: o.S("constraint_violation_norm_type", "max-norm"); break;
      case 32: o.S("alpha_for_y", "max"); break;
      case 33: o.S("hessian_approximation", "limited-memory").N("tol", 1e-6); break;
   }
   c.desc << p.show() << o.show() << "\n";
   Outcome r = solve(p, o);
   c.desc << " -> " << statname(r.app) << " in " << r.iter_count << " iterations\n";
   c.nontrivial = p.m > 0 && k > 0;
   c.label(o.show());
   PBT_CHECK(c, r.ok(), "not-solved", "configuration%s ended with %s on a strictly convex problem with a Slater point", o.show().c_str(), statname(r.app));
   if( r.ok() )
      compare(c, p, r, k == 33 ? 1e-4 : 2e-5, k == 33 ? 1e-3 : 2e-4);
}
static void f_combo(Ctx& c)
{
   Problem p = gen(c, c.src.flip(0.3));
   Opts o = base_opts();
   int mask = OG_STD | OG_RESTO | OG_BOUNDRELAX;
   if( c.src.flip(0.2) )
      mask |= OG_PENALTYLS;
   if( c.src.flip(0.2) )
      mask |= OG_RISKY;
   if( c.src.flip(0.1) )
      mask |= OG_MEHROTRA;
   gen_algo_options(c, o, mask, c.src.flip(0.3) ? 0.4 : 0.12);
   if( o.find("fixed_variable_treatment") == NULL && p.nfixed() > 0 && c.src.flip(0.3) )
      o.S("fixed_variable_treatment", "make_constraint");
   o.I("max_iter", 300).I("acceptable_iter", 0);
   c.desc << p.show() << o.show() << "\n";
   Outcome r = solve(p, o);
   c.desc << " -> " << statname(r.app) << " in " << r.iter_count << " iterations\n";
   c.label(statname(r.app));
   PBT_CHECK(c, r.app != Infeasible_Problem_Detected || r.nfinal == 1, "final", "no final report");
   if( !r.ok() )
      return;
   c.nontrivial = r.iter_count > 0;
   // scaling of the objective or of constraints makes the tolerance relative to the scaled problem
   double os = std::fabs(o.num("obj_scaling_factor", 1));
   bool strong = o.find("nlp_scaling_constr_target_gradient") || o.find("nlp_scaling_obj_target_gradient") || o.str("nlp_scaling_method", "") == "equilibration-based" || os < 1;
   double f = strong ? 20 : 1;
   f *= std::max(1., o.num("bound_relax_factor", 1e-8) / 1e-7);
   compare(c, p, r, 2e-5 * f, 2e-4 * f);
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P04", "the solve succeeded on a problem with known solution after at least one iteration (facets default and single: with at least one constraint)",
      {{"default", f_default, 4000, 400000}, {"single", f_single, 5000, 400000}, {"combo", f_combo, 8000, 800000}}
   };
   return pbt::run_main(argc, argv, ck);
}
