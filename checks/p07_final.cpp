// P07: the final report is delivered once and is consistent with itself.
#include "anycase.hpp"
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static int expect_fin(ApplicationReturnStatus s)
{
   switch( s )
   {
      case Solve_Succeeded: return SUCCESS;
      case Solved_To_Acceptable_Level: return STOP_AT_ACCEPTABLE_POINT;
      case Infeasible_Problem_Detected: return LOCAL_INFEASIBILITY;
      case Search_Direction_Becomes_Too_Small: return STOP_AT_TINY_STEP;
      case Diverging_Iterates: return DIVERGING_ITERATES;
      case User_Requested_Stop: return USER_REQUESTED_STOP;
      case Feasible_Point_Found: return FEASIBLE_POINT_FOUND;
      case Maximum_Iterations_Exceeded: return MAXITER_EXCEEDED;
      case Restoration_Failed: return RESTORATION_FAILURE;
      case Error_In_Step_Computation: return ERROR_IN_STEP_COMPUTATION;
      case Maximum_CpuTime_Exceeded: return CPUTIME_EXCEEDED;
      case Maximum_WallTime_Exceeded: return WALLTIME_EXCEEDED;
      case Invalid_Number_Detected: return INVALID_NUMBER_DETECTED;
      default: return -1;
   }
}

static void check_final(Ctx& c, const Any& a, RecTNLP& t, const Outcome& r, double optobjscale)
{
   const Problem& p = a.p;
   bool skip = a.o.str("skip_finalize_solution_call", "no") == "yes";
   if( skip )
   {
      PBT_CHECK(c, r.nfinal == 0, "skip", "finalize_solution called although skip_finalize_solution_call=yes");
      return;
   }
   PBT_CHECK(c, r.nfinal <= 1, "twice", "finalize_solution called %d times", r.nfinal);
   int ef = expect_fin(r.app);
   if( r.iters.size() > 0 || ef >= 0 )
      // an iteration was reported or the status says there is a point
      PBT_CHECK(c, r.nfinal == 1 || (r.iters.empty() && r.app == Invalid_Number_Detected), "missing", "no finalize_solution after %d iteration reports, status %s", (int)r.iters.size(), statname(r.app));
   if( !r.nfinal )
   {
      c.label("no final report");
      return;
   }
   if( ef >= 0 )
      PBT_CHECK(c, (int)r.fin == ef, "status", "application status %s but finalize_solution received SolverReturn %d", statname(r.app), (int)r.fin);
   else
   {
      PBT_CHECK(c, !(r.fin == SUCCESS || r.fin == STOP_AT_ACCEPTABLE_POINT), "status", "application status %s but finalize_solution received SolverReturn %d", statname(r.app), (int)r.fin);
      c.label("final report without solution");
      return;
   }
   if( r.app == Invalid_Number_Detected )
      return;
   c.nontrivial = true;
   // x
   bool mc = a.o.str("fixed_variable_treatment", "make_parameter") == "make_constraint";
   bool rb = a.o.str("fixed_variable_treatment", "make_parameter") == "relax_bounds";
   bool honor = a.o.str("honor_original_bounds", "no") == "yes";
   double brf = a.o.num("bound_relax_factor", 1e-8), cvt = a.o.num("constr_viol_tol", 1e-4);
   double sm = a.o.num("slack_move", 1.82e-12);
   bool undefd = false;
   for( int i = 0; i < p.n; ++i )
      undefd = undefd || !std::isfinite(r.x[i]);
   if( undefd )
   {
      c.label("undefined final point");
      return;
   }
   bool repb = a.o.str("replace_bounds", "no") == "yes";
   double xsc = 1;
   if( a.userscale && t.use_x_scaling )
      for( double v : t.x_scaling )
         xsc = std::max(xsc, 1 / v);
   for( int i = 0; i < p.n; ++i )
   {
      if( p.fixed(i) && !mc && !rb )
         PBT_CHECK(c, r.x[i] == p.xl[i], "fixed-x", "fixed variable x%d reported at %.17g instead of %.17g", i, r.x[i], p.xl[i]);
      if( honor && brf > 0. && !(p.fixed(i) && (mc || rb)) && !repb )
         PBT_CHECK(c, (r.x[i] >= p.xl[i] || p.xl[i] <= -1e19) && (r.x[i] <= p.xu[i] || p.xu[i] >= 1e19), "honor", "honor_original_bounds=yes, but x%d=%.17g outside [%.17g,%.17g]", i, r.x[i], p.xl[i], p.xu[i]);
   }
   // function values
   if( t.faulted == 0 )
   {
      Vec G(p.n), xp(p.n), gr(p.n), up(p.n), dn(p.n);
      for( int i = 0; i < p.n; ++i )
      {
         // honor_original_bounds moves x after the evaluation
         double d = 0;
         if( honor )
            d = std::min(cvt, brf * std::max(1., std::fabs(r.x[i]))) + 2 * sm * (r.iters.size() + 2) * std::max(xsc, std::fabs(r.x[i]));
         up[i] = d + 1e-14 * std::fabs(r.x[i]);
      }
      auto tol = [&](const Func & f, double v)
      {
         std::fill(gr.begin(), gr.end(), 0.);
         f.grad(r.x.data(), gr.data());
         double e = 1e-12 * std::max(1., std::fabs(v));
         double mag = std::fabs(f.c0);
         for( auto& q : f.t )
         {
            Func one;
            one.t.push_back(q);
            mag += std::fabs(one.val(r.x.data()));
         }
         e += 1e-13 * mag;
         for( int i = 0; i < p.n; ++i )
            e += 2 * std::fabs(gr[i]) * up[i] + 100 * up[i] * up[i];
         return e;
      };
      double fv = p.f.val(r.x.data());
      if( std::isfinite(fv) && std::fabs(fv) < 1e100 )
         PBT_CHECK(c, std::fabs(r.obj - fv) <= tol(p.f, fv), "obj", "finalize_solution gets objective %.17g, but the function is %.17g at the reported point", r.obj, fv);
      bool droppedrow = a.o.str("dependency_detector", "none") != "none" || rb || mc;
      (void)droppedrow;
      for( int j = 0; j < p.m; ++j )
      {
         double gv = p.g[j].val(r.x.data());
         if( std::isfinite(gv) && std::fabs(gv) < 1e100 )
         {
            double extra = 1e-13 * (std::fabs(p.gl[j]) < 1e19 ? std::fabs(p.gl[j]) : 0.);
            PBT_CHECK(c, std::fabs(r.g[j] - gv) <= tol(p.g[j], gv) + extra, "g", "finalize_solution gets g%d=%.17g, but the function is %.17g at the reported point", j, r.g[j], gv);
         }
      }
      // same objective through the statistics
      if( r.have_stats && std::isfinite(r.obj) )
         PBT_CHECK(c, std::fabs(r.st_obj - r.obj) <= 1e-12 * std::max(1., std::fabs(r.obj)), "stat-obj", "statistics report objective %.17g, finalize_solution %.17g", r.st_obj, r.obj);
   }
   // multipliers
   double sign = (optobjscale * (a.userscale ? t.obj_scaling : 1.)) < 0 ? -1. : 1.;
   bool fdfix = false;
   for( int i = 0; i < p.n; ++i )
   {
      PBT_CHECK(c, std::isfinite(r.zl[i]) && std::isfinite(r.zu[i]) && !(p.fixed(i) && sign < 0) ? (sign * r.zl[i] >= 0. && sign * r.zu[i] >= 0.) : true, "mult-sign", "bound multipliers of x%d: zl=%.17g zu=%.17g", i, r.zl[i], r.zu[i]);
      if( p.xl[i] <= -1e19 )
         PBT_CHECK(c, r.zl[i] == 0., "mult-absent", "x%d has no lower bound, but zl=%.17g", i, r.zl[i]);
      if( p.xu[i] >= 1e19 )
         PBT_CHECK(c, r.zu[i] == 0., "mult-absent", "x%d has no upper bound, but zu=%.17g", i, r.zu[i]);
      fdfix = fdfix || p.fixed(i);
   }
   for( int j = 0; j < p.m; ++j )
   {
      // multipliers of one-sided inequalities have a sign up to rounding only in the limit: just finite
      if( t.faulted == 0 && p.gl[j] <= -1e19 && p.gu[j] >= 1e19 )
         PBT_CHECK(c, std::fabs(r.lam[j]) <= 1e300 || std::isnan(r.lam[j]), "lam-free", "g%d is free, but multiplier is %.17g", j, r.lam[j]);
   }
   // multipliers of fixed variables make the gradient of the Lagrangian vanish
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   if( fdfix && ft == "make_parameter" && t.faulted == 0 && !a.fd_grad && !a.fd_jac && !repb && sign > 0 )
   {
      bool fin = true;
      for( double v : r.lam )
         fin = fin && std::isfinite(v);
      KKT k = kkt(p, r.x, r.lam, r.zl, r.zu);
      for( int i = 0; i < p.n; ++i )
      {
         if( !p.fixed(i) )
            continue;
         // magnitude of the contributions
         Vec g1(p.n, 0.);
         p.f.grad(r.x.data(), g1.data());
         double mag = std::fabs(g1[i]);
         for( int j = 0; j < p.m; ++j )
         {
            Vec g2(p.n, 0.);
            p.g[j].grad(r.x.data(), g2.data());
            mag += std::fabs(g2[i] * r.lam[j]);
         }
         double xm = 1;
         for( double v : r.x )
            xm = std::max(xm, std::fabs(v));
         double ge = 0;
         if( honor )
            continue;
         if( fin && mag < 1e50 && std::isfinite(k.r[i]) )
         {
            PBT_CHECK(c, std::fabs(k.r[i]) <= 1e-9 * (1 + mag) * xm + ge, "fixed-mult", "x%d is fixed, but the gradient of the Lagrangian there is %g (zl=%.17g zu=%.17g)", i, k.r[i], r.zl[i], r.zu[i]);
            c.label("fixed variable multiplier checked");
         }
      }
   }
   if( ft == "make_parameter_nodual" )
      for( int i = 0; i < p.n; ++i )
         if( p.fixed(i) )
            PBT_CHECK(c, r.zl[i] == 0. && r.zu[i] == 0., "nodual", "make_parameter_nodual, but fixed variable x%d has multipliers %.17g %.17g", i, r.zl[i], r.zu[i]);
}
static double more(Ctx& c, Any& a)
{
   if( c.src.flip(0.1) )
   {
      static const double lim[] = {1e-7, 2e-4, 1e-3, 3e-3};
      a.o.N(c.src.flip() ? "max_wall_time" : "max_cpu_time", lim[c.src.below(4)]);
   }
   if( c.src.flip(0.1) )
      a.o.N("obj_scaling_factor", (c.src.flip(0.3) ? -1. : c.src.logreal(1e-3, 1e3)));
   if( c.src.flip(0.2) )
      a.o.S("honor_original_bounds", "yes");
   if( c.src.flip(0.03) )
      a.o.S("skip_finalize_solution_call", "yes");
   return a.o.num("obj_scaling_factor", 1.);
}
static void f_final(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL, c.src.flip(0.3) ? 0.2 : 0.05);
   double os = more(c, a);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(statname(r.app));
   check_final(c, a, *t, r, os);
}
// several problems and re-optimizations through one application object
static void f_history(Ctx& c)
{
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   int k = c.src.integer(2, 4);
   SmartPtr<RecTNLP> prev;
   std::vector<Any> as(k);
   for( int i = 0; i < k; ++i )
   {
      bool re = i > 0 && c.src.flip(0.4);
      Any& a = as[i];
      double os = 1;
      if( re )
      {
         a = as[i - 1];
         if( c.src.flip(0.3) )
            a.o.I("max_iter", c.src.integer(0, 5));
      }
      else
      {
         gen_any(c, a, AF_ALL & ~AF_DEP, c.src.flip(0.3) ? 0.2 : 0.05);
      }
      os = more(c, a);
      if( a.o.str("replace_bounds", "no") == "yes" )
         c.discard();
      c.desc << (re ? "re-optimize\n" : "") << a.show();
      app->Options()->clear();
      if( !a.o.apply(*app->Options()) )
         c.discard();
      app->Options()->SetStringValue("option_file_name", "");
      ApplicationReturnStatus st = app->Initialize();
      PBT_CHECK(c, st == Solve_Succeeded, "initialize", "Initialize returned %d", (int)st);
      SmartPtr<RecTNLP> t = re ? prev : a.make();
      if( re )
      {
         t->out = Outcome();
         t->faulted = 0;
      }
      t->out.app = re ? app->ReOptimizeTNLP(GetRawPtr(t)) : app->OptimizeTNLP(GetRawPtr(t));
      grab_stats(*app, t->out);
      Outcome r = t->out;
      c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
      c.label(statname(r.app));
      Any aa = a;
      check_final(c, aa, *t, r, os);
      for( int q = 0; q < i; ++q ) { }
      prev = t;
   }
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P07", "finalize_solution was called with a status that hands back a point",
      {{"final", f_final, 14000, 1000000}, {"history", f_history, 4000, 300000}}
   };
   return pbt::run_main(argc, argv, ck);
}
