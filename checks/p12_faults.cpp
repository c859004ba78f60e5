// P12: failing evaluations never crash the solver or falsify its answer.
#include "anycase.hpp"
#include "adapter.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool same(const Vec& a, const Vec& b)
{
   if( a.size() != b.size() )
      return false;
   for( size_t i = 0; i < a.size(); ++i )
      if( !same(a[i], b[i]) )
         return false;
   return true;
}
static bool documented(ApplicationReturnStatus s)
{
   switch( s )
   {
      case Solve_Succeeded: case Solved_To_Acceptable_Level: case Infeasible_Problem_Detected: case Search_Direction_Becomes_Too_Small: case Diverging_Iterates: case User_Requested_Stop: case Feasible_Point_Found:
      case Maximum_Iterations_Exceeded: case Restoration_Failed: case Error_In_Step_Computation: case Maximum_CpuTime_Exceeded: case Maximum_WallTime_Exceeded: case Not_Enough_Degrees_Of_Freedom:
      case Invalid_Problem_Definition: case Invalid_Option: case Invalid_Number_Detected: case Unrecoverable_Exception: case NonIpopt_Exception_Thrown: case Insufficient_Memory: case Internal_Error:
         return true;
      default:
         return false;
   }
}
// a success must satisfy the tolerances (coarse: exact bounds are P01's business)
static void truthful(Ctx& c, const Any& a, const Outcome& r, bool nofixed = false)
{
   const double slackf = 1;
   if( !r.okish() && r.app != Feasible_Point_Found )
      return;
   PBT_CHECK(c, r.nfinal == 1, "final", "status %s, but finalize_solution called %d times", statname(r.app), r.nfinal);
   const Problem& p = a.p;
   double brf = a.o.num("bound_relax_factor", 1e-8);
   for( double v : r.x )
      PBT_CHECK(c, std::isfinite(v), "not-finite", "status %s, but x=%s", statname(r.app), vs(r.x).c_str());
   KKT k = kkt(p, r.x, r.lam, r.zl, r.zu);
   double ct = r.app == Solved_To_Acceptable_Level ? a.o.num("acceptable_constr_viol_tol", 1e-2) : std::min(a.o.num("constr_viol_tol", 1e-4), 1e-2);
   double xm = 1;
   for( double v : r.x )
      xm = std::max(xm, std::fabs(v));
   double bt = std::min(brf, 1e-2) * xm * 2 + 1e-9 * xm;
   bool mc = a.o.str("fixed_variable_treatment", "make_parameter") == "make_constraint" || a.o.str("replace_bounds", "no") == "yes";
   double gm = 1;
   for( int j = 0; j < p.m; ++j )
   {
      Vec q(p.n, 0.);
      p.g[j].grad(r.x.data(), q.data());
      gm = std::max(gm, std::fabs(maxabs(q)));
   }
   PBT_CHECK(c, k.constr <= slackf * (1.01 * ct + bt * gm + 1e-7 * xm), "infeasible", "status %s, but constraint violation is %g", statname(r.app), k.constr);
   PBT_CHECK(c, k.bound <= bt + (mc ? ct * xm : 0.), "bounds", "status %s, but bound violation is %g", statname(r.app), k.bound);
   if( r.app != Solve_Succeeded || a.fd_grad || a.fd_jac )
      return;
   double mm = 1 + maxabs(r.lam) + maxabs(r.zl) + maxabs(r.zu);
   // scaling factors and the multiplier scaling can loosen this; gross errors remain visible
   double dt = a.o.num("dual_inf_tol", 1.);
   bool nodual = a.o.str("fixed_variable_treatment", "make_parameter") == "make_parameter_nodual";
   double dual = 0;
   for( int i = 0; i < p.n; ++i )
      if( !(p.fixed(i)) || !(nodual || nofixed) )
         dual = std::max(dual, std::fabs(k.r[i]));
   if( a.o.str("recalc_y", "no") == "no" )
      PBT_CHECK(c, dual <= (dt + bt * 1e3) * 1.01 + 1e-6 * mm * gm, "dual", "status %s, but dual infeasibility is %g", statname(r.app), dual);
   if( p.known && dt <= 1. && !a.userscale && a.o.num("tol", 1e-8) <= 1e-6 && maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu) < 100 && brf < 1e-7 && a.o.num("mu_target", 0.) == 0. && a.o.num("nlp_scaling_max_gradient", 100.) > 1. && std::fabs(a.o.num("obj_scaling_factor", 1.)) >= 0.1 )
   {
      double cx, cy;
      known_cond(p, cx, cy);
      double sd = std::max(1., (maxabs(r.lam) + maxabs(r.zl) + maxabs(r.zu)) / 10);
      PBT_CHECK(c, maxdiff(r.x, p.xs) <= 2e-2 * cx * sd * (1 + maxabs(p.xs)), "solution", "Solve_Succeeded with x=%s instead of %s", vs(r.x).c_str(), vs(p.xs).c_str());
   }
}
static void common(Ctx& c, const Outcome& r)
{
   PBT_CHECK(c, documented(r.app), "status", "undocumented status %d", (int)r.app);
   PBT_CHECK(c, r.nfinal <= 1, "final", "finalize_solution called %d times", r.nfinal);
   for( auto& v : r.viol )
      if( v.first.compare(0, 9, "unneeded-") != 0 )   // known findings of P05
         c.fail("protocol", "%s: %s", v.first.c_str(), v.second.c_str());
}
struct Burst { int kind; long at, len; int f; };
static const int KINDS[] = {K_F, K_G, K_GRAD, K_JAC, K_HESS};

// bursts of faults of every kind; afterwards the application object still works
static void f_bursts(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~AF_FAULTS, c.src.flip(0.3) ? 0.2 : 0.05);
   if( a.o.num("max_iter", 1000) > 80 )
      a.o.I("max_iter", 80);
   SmartPtr<RecTNLP> t0 = a.make();
   Outcome base = solve(GetRawPtr(t0), a.o);
   std::vector<Burst> bs(c.src.integer(1, 3));
   bool naninf = false;
   for( auto& b : bs )
   {
      b.kind = KINDS[c.src.below(5)];
      long n = base.calls[b.kind];
      b.at = c.src.below(n + 1);
      b.len = c.src.flip(0.2) ? 1000000 : c.src.integer(1, 4);
      static const int w[] = {F_FALSE, F_NAN, F_INF, F_NINF, F_NAN1, F_THROW};
      b.f = w[c.src.below(6)];
      if( b.f != F_FALSE && b.f != F_THROW )
         naninf = naninf || b.kind == K_JAC || b.kind == K_HESS || (a.fd_jac && b.kind == K_G);
      a.note += pbt::fmt(" fault %d in %s calls %ld..%ld of %ld\n", b.f, kindname[b.kind], b.at, b.at + b.len - 1, n);
   }
   if( naninf )
      a.o.S("check_derivatives_for_naninf", "yes");
   bool rethrow = c.src.flip();
   a.note += rethrow ? " exceptions are rethrown\n" : "";
   c.desc << a.show();
   a.faults = true;
   SmartPtr<RecTNLP> t = a.make();
   int threw = 0;
   t->fault = [&](int kind, long count, const double*) -> int
   {
      for( auto& b : bs )
         if( b.kind == kind && count >= b.at && count < b.at + b.len )
         {
            if( b.f == F_THROW )
               ++threw;
            return b.f;
         }
      return F_NONE;
   };
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   a.o.apply(*app->Options());
   app->Initialize("");
   app->RethrowNonIpoptException(rethrow);
   bool prop = false;
   ApplicationReturnStatus st = Internal_Error;
   try
   {
      st = app->OptimizeTNLP(GetRawPtr(t));
   }
   catch( const IpoptException& e )
   {
      c.fail("ipopt-exception", "an exception of Ipopt leaves OptimizeTNLP: %s", e.Message().c_str());
   }
   catch( ... )
   {
      prop = true;
   }
   Outcome r = t->out;
   r.app = st;
   c.nontrivial = t->faulted > 0;
   if( prop )
   {
      c.desc << " -> exception of the user passed on\n";
      c.label("exception passed on");
      PBT_CHECK(c, threw > 0, "exception", "OptimizeTNLP throws, but no callback did");
      PBT_CHECK(c, rethrow, "exception", "the user's exception is passed on although rethrowing is not enabled");
      PBT_CHECK(c, r.nfinal == 0, "final", "finalize_solution called although the solve was aborted by an exception");
   }
   else
   {
      c.desc << " -> " << statname(st) << " with " << t->faulted << " faults\n";
      c.label(statname(st));
      if( threw )
      {
         PBT_CHECK(c, !rethrow, "swallowed", "a callback threw, but OptimizeTNLP returns %s", statname(st));
         PBT_CHECK(c, st == NonIpopt_Exception_Thrown, "swallowed", "a callback threw, but the status is %s", statname(st));
      }
      else
         PBT_CHECK(c, st != NonIpopt_Exception_Thrown, "status", "NonIpopt_Exception_Thrown, but no callback threw");
      common(c, r);
      // multipliers of fixed variables need derivatives at the final point
      truthful(c, a, r, t->faulted > 0);
   }
   // the application object is still usable: same result as a fresh one
   SmartPtr<RecTNLP> t2 = a.make();
   t2->out.app = app->OptimizeTNLP(GetRawPtr(t2));
   grab_stats(*app, t2->out);
   Outcome q = t2->out;
   SmartPtr<RecTNLP> t3 = a.make();
   Outcome w = solve(GetRawPtr(t3), a.o);
   PBT_CHECK(c, q.app == w.app && q.iters.size() == w.iters.size() && same(q.x, w.x) && same(q.lam, w.lam) && same(q.zl, w.zl) && same(q.zu, w.zu) && same(q.g, w.g) && same(q.obj, w.obj), "unusable", "after a solve with faults the next one ends with %s (%d reports), with a fresh application object with %s (%d reports)", statname(q.app), (int)q.iters.size(), statname(w.app), (int)w.iters.size());
}
// functions undefined outside of a region containing starting point and solution
static void f_region(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_CONVEXONLY | AF_NOMASK, 0);
   if( !a.p.known )
      c.discard();
   const Problem& p = a.p;
   // the first point after the documented push into the bounds
   double R = 0;
   Vec first;
   {
      SmartPtr<RecTNLP> t0 = a.make();
      a.o.I("max_iter", 0);
      t0->on_eval = [&](int kind, const double * x) { if( kind == K_F && first.empty() && x ) first.assign(x, x + p.n); };
      solve(GetRawPtr(t0), a.o);
      a.o.I("max_iter", 300);
   }
   if( first.empty() )
      c.discard();
   for( int i = 0; i < p.n; ++i )
      R = std::max(R, std::fabs(first[i] - p.xs[i]));
   R = R * (1 + c.src.logreal(0.01, 1)) + 0.05;
   static const int w[] = {F_FALSE, F_NAN, F_INF, F_NAN1};
   int ff = w[c.src.below(4)];
   int which = c.src.integer(1, 7);
   if( c.src.flip(0.3) )
      a.o.S("mu_strategy", "adaptive");
   c.desc << a.show() << pbt::fmt(" functions (mask %d) fail (%d) farther than %g from the solution\n", which, ff, R);
   a.faults = true;
   SmartPtr<RecTNLP> t = a.make();
   int nfail = 0;
   bool level = p.m == 0;   // without barrier terms descent methods cannot leave a level set
   for( int i = 0; i < p.n; ++i )
      level = level && !(p.xl[i] > -INF) && !(p.xu[i] < INF);
   double fmax = p.f.val(first.data());
   fmax += 1e-6 * (1 + std::fabs(fmax)) + R * c.src.unit();
   if( level )
      c.desc << pbt::fmt(" instead: functions fail where f > %g\n", fmax);
   t->fault = [&](int kind, long, const double * x) -> int
   {
      if( level && x )
      {
         if( kind != K_F || p.f.val(x) <= fmax )
            return F_NONE;
         ++nfail;
         return ff;
      }
      if( !x || !((kind == K_F && (which & 1)) || (kind == K_G && (which & 2)) || (kind == K_GRAD && (which & 4)) ) )
         return F_NONE;
      for( int i = 0; i < p.n; ++i )
         if( !(std::fabs(x[i] - p.xs[i]) <= R) )
         {
            ++nfail;
            return kind == K_GRAD ? F_NONE : ff;
         }
      return F_NONE;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << ", " << nfail << " evaluations failed\n";
   c.label(statname(r.app));
   c.nontrivial = nfail > 0;
   common(c, r);
   truthful(c, a, r);
   PBT_CHECK(c, r.app != Invalid_Number_Detected, "not-survived", "evaluations failed only at trial points, but the status is Invalid_Number_Detected");
   if( level )
      PBT_CHECK(c, r.okish(), "not-solved", "unconstrained convex problem with evaluation errors away from start and solution ends with %s", statname(r.app));
}
// failure at the starting point
static void f_start(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_FAULTS | AF_STOP | AF_LIMITS | AF_DT | AF_DEP | AF_WARM), c.src.flip(0.3) ? 0.1 : 0.02);
   a.o.I("max_iter", 80);
   int kind = KINDS[c.src.below(4)];
   static const int w[] = {F_FALSE, F_NAN, F_INF, F_NINF, F_NAN1};
   int ff = w[c.src.below(5)];
   SmartPtr<RecTNLP> t0 = a.make();
   Outcome base = solve(GetRawPtr(t0), a.o);
   if( base.iters.empty() || base.calls[kind] == 0 || (a.p.m == 0 && (kind == K_G || kind == K_JAC)) || (kind == K_GRAD && a.fd_grad) || (kind == K_JAC && (a.fd_jac || a.pres.jac.empty())) || (ff != F_FALSE && a.p.nfixed() > 0 && (kind == K_GRAD || kind == K_JAC)) )
      c.discard();
   if( ff != F_FALSE && (kind == K_JAC || a.fd_jac) )
      a.o.S("check_derivatives_for_naninf", "yes");
   c.desc << a.show() << " fault " << ff << " in all calls of " << kindname[kind] << "\n";
   a.faults = true;
   SmartPtr<RecTNLP> t = a.make();
   t->fault = [&](int k, long, const double*) { return k == kind ? ff : F_NONE; };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(std::string(kindname[kind]) + " " + statname(r.app));
   c.nontrivial = t->faulted > 0;
   common(c, r);
   if( t->faulted == 0 )
      c.discard();
   PBT_CHECK(c, !r.okish(), "success", "a function can never be evaluated, but the status is %s", statname(r.app));
   if( kind == K_F || kind == K_G || kind == K_GRAD || kind == K_JAC )
      PBT_CHECK(c, r.app == Invalid_Number_Detected, "start-status", "%s fails at the starting point, but the status is %s", kindname[kind], statname(r.app));
   PBT_CHECK(c, r.iters.size() <= 1, "start-iters", "%d iterations reported although %s fails at the starting point", (int)r.iters.size(), kindname[kind]);
}
// problem description callbacks fail
static void f_info(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~AF_FAULTS, 0.05);
   a.o.I("max_iter", 30);
   static const int ks[] = {K_NLPINFO, K_BOUNDS, K_START, K_JACS, K_HESSS};
   int kind = ks[c.src.below(5)];
   long at = c.src.below(3);
   bool thr = c.src.flip(0.3);
   bool rethrow = c.src.flip();
   a.note += rethrow ? " exceptions are rethrown\n" : "";
   c.desc << a.show() << (thr ? " exception" : " false") << " from call " << at << " of " << kindname[kind] << "\n";
   SmartPtr<RecTNLP> t = a.make();
   t->fault = [&](int k, long n, const double*) { return k == kind && n >= at ? (thr ? (int)F_THROW : (int)F_FALSE) : (int)F_NONE; };
   bool prop = false;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   a.o.apply(*app->Options());
   app->Initialize("");
   app->RethrowNonIpoptException(rethrow);
   ApplicationReturnStatus st = Internal_Error;
   try
   {
      st = app->OptimizeTNLP(GetRawPtr(t));
   }
   catch( const UserException& )
   {
      prop = true;
   }
   c.nontrivial = t->faulted > 0;
   c.label(std::string(kindname[kind]) + " " + (prop ? "exception" : statname(st)));
   c.desc << " -> " << (prop ? "exception" : statname(st)) << "\n";
   Outcome r = t->out;
   r.app = st;
   if( t->faulted )
   {
      PBT_CHECK(c, prop == (thr && rethrow), "exception", "exception passed on: %d, thrown: %d, rethrow: %d", prop, thr, rethrow);
      if( !prop )
      {
         if( thr )
            PBT_CHECK(c, st == NonIpopt_Exception_Thrown, "status", "callback threw, but status is %s", statname(st));
         else
            PBT_CHECK(c, st == Invalid_Problem_Definition || st == Unrecoverable_Exception || (kind == K_HESSS && st == Invalid_Option), "status", "%s returns false, but the status is %s", kindname[kind], statname(st));
      }
      PBT_CHECK(c, r.nfinal == 0 || r.iters.size() > 0, "final", "finalize_solution called %d times", r.nfinal);
   }
   SmartPtr<RecTNLP> t2 = a.make();
   t2->out.app = app->OptimizeTNLP(GetRawPtr(t2));
   SmartPtr<RecTNLP> t3 = a.make();
   Outcome w = solve(GetRawPtr(t3), a.o);
   PBT_CHECK(c, t2->out.app == w.app && t2->out.iters.size() == w.iters.size() && same(t2->out.x, w.x), "unusable", "the next solve ends with %s, with a fresh application object with %s", statname(t2->out.app), statname(w.app));
}
static void f_adapter(Ctx& c)
{
   adapter_history(c, true);
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P12", "at least one evaluation failed",
      {{"bursts", f_bursts, 8000, 500000, 30}, {"adapter", f_adapter, 60000, 2000000}, {"region", f_region, 5000, 300000}, {"start", f_start, 5000, 200000}, {"info", f_info, 4000, 200000}}
   };
   return pbt::run_main(argc, argv, k);
}
