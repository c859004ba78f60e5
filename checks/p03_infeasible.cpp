// P03: infeasible or ill-posed problems get a truthful verdict.
#include "optgen.hpp"
#include "anycase.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

/** l1 violation and its stationarity residual at x: smallest norm of a projected subgradient, relative to the size of the Jacobian */
static double stationarity(const Problem& p, const Vec& x, double& viol)
{
   viol = 0;
   Vec g = p.geval(x.data());
   struct Col { Vec a; double lo, hi, y; };
   std::vector<Col> cols;
   Vec r(p.n, 0.);
   double jmax = 0;
   for( int j = 0; j < p.m; ++j )
   {
      Vec a(p.n, 0.);
      p.g[j].grad(x.data(), a.data());
      jmax = std::max(jmax, maxabs(a));
      double t = 1e-4 * (1 + std::fabs(g[j]));
      double up = p.gu[j] < 1e19 ? g[j] - p.gu[j] : -INF, dn = p.gl[j] > -1e19 ? p.gl[j] - g[j] : -INF;
      viol = std::max(viol, std::max(up, dn));
      double lo = 0, hi = 0;
      if( up > t )
         lo = hi = 1;
      else if( dn > t )
         lo = hi = -1;
      else
      {
         if( up > -t )
            hi = 1;
         if( dn > -t )
            lo = -1;
      }
      if( lo == hi )
         for( int i = 0; i < p.n; ++i )
            r[i] += lo * a[i];
      else
         cols.push_back({a, lo, hi, 0.});
   }
   for( int i = 0; i < p.n; ++i )
   {
      // -zl + zu
      double tl = p.xl[i] > -1e19 ? 1e-4 * (1 + std::fabs(p.xl[i])) : -1, tu = p.xu[i] < 1e19 ? 1e-4 * (1 + std::fabs(p.xu[i])) : -1;
      bool l = p.xl[i] > -1e19 && x[i] <= p.xl[i] + tl, u = p.xu[i] < 1e19 && x[i] >= p.xu[i] - tu;
      if( p.fixed(i) )
         l = u = true;
      if( l || u )
      {
         Vec a(p.n, 0.);
         a[i] = 1;
         cols.push_back({a, l ? -INF : 0, u ? INF : 0, 0.});
      }
   }
   for( int it = 0; it < 20000; ++it )
   {
      double ch = 0;
      for( auto& q : cols )
      {
         double aa = 0, ar = 0;
         for( int i = 0; i < p.n; ++i )
         {
            aa += q.a[i] * q.a[i];
            ar += q.a[i] * r[i];
         }
         if( aa < 1e-300 )
            continue;
         double y = std::min(q.hi, std::max(q.lo, q.y - ar / aa));
         double d = y - q.y;
         q.y = y;
         for( int i = 0; i < p.n; ++i )
            r[i] += d * q.a[i];
         ch = std::max(ch, std::fabs(d) * std::sqrt(aa));
      }
      if( ch < 1e-10 )
         break;
   }
   return maxabs(r) / (1 + jmax);
}

static void verdict(Ctx& c, const Any& a, const RecTNLP& t, bool noscale)
{
   const Outcome& o = t.out;
   c.label(statname(o.app));
   if( o.app != Infeasible_Problem_Detected || o.nfinal == 0 )
      return;
   double viol;
   double st = stationarity(a.p, o.x, viol);
   double cvt = a.o.num("constr_viol_tol", 1e-4);
   (void)cvt;
   // the verdict is only given above the feasibility tolerance of the (possibly scaled) problem
   PBT_CHECK(c, viol > 0, "no-violation", "Infeasible_Problem_Detected at a point that satisfies all constraints: x %s", vs(o.x).c_str());
   if( noscale )
   {
      c.nontrivial = true;
      PBT_CHECK(c, st < 2e-2, "not-stationary", "Infeasible_Problem_Detected at a point with violation %g where the violation can be reduced: relative subgradient %g at %s", viol, st, vs(o.x).c_str());
   }
}

/** problems without feasible points */
static void infeasible(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   GenCfg g;
   g.nmax = s.flip(0.1) ? 15 : 6;
   a.p = gen_infeasible(c, g);
   a.pres = s.flip(0.3) ? gen_pres(c, a.p) : plain_pres(a.p);
   a.o = base_opts();
   gen_algo_options(c, a.o, OG_STD | OG_RESTO | (s.flip(0.2) ? OG_BOUNDRELAX : 0) | (s.flip(0.2) ? OG_PENALTYLS : 0) | (s.flip(0.1) ? OG_MEHROTRA : 0), 0.08);
   if( s.flip(0.3) )
      a.o.S("expect_infeasible_problem", "yes");
   if( s.flip(0.15) )
      a.o.S("start_with_resto", "yes");
   if( s.flip(0.6) )
      a.o.S("nlp_scaling_method", "none");
   if( s.flip(0.3) )
      a.o.N("tol", s.flip() ? 1e-3 : 1e-10);
   if( s.flip(0.1) )
      a.o.I("acceptable_iter", 1);
   if( s.flip(0.1) )
   {
      int i = s.below(a.p.n);
      if( a.p.xl[i] < a.p.xu[i] )
      {
         double v = a.p.x0[i];
         v = std::max(a.p.xl[i], std::min(a.p.xu[i], v));
         a.p.xl[i] = a.p.xu[i] = v;
      }
   }
   a.o.I("max_iter", 300);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   t->out = nlp::solve(GetRawPtr(t), a.o);
   c.nontrivial = true;
   // the smallest possible violation is at least 0.25
   double viol;
   if( t->out.nfinal )
      stationarity(a.p, t->out.x, viol);
   PBT_CHECK(c, t->out.app != Solve_Succeeded && t->out.app != Solved_To_Acceptable_Level && t->out.app != Feasible_Point_Found, "success", "%s for a problem without feasible points, x %s, violation %g", statname(t->out.app), vs(t->out.x).c_str(), viol);
   bool noscale = a.o.str("nlp_scaling_method", "gradient-based") == "none" && a.o.str("line_search_method", "filter") == "filter";
   verdict(c, a, *t, noscale);
}

/** any problem: an infeasibility verdict belongs to a stationary point */
static void stationary(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_FAULTS | AF_STOP | AF_USERSCALE | AF_DEP | AF_FD | AF_HINTS), 0.06);
   // make restoration likely
   int j0 = a.p.m;
   for( int k = 0; k < 2 && a.p.m > 0; ++k )
   {
      int j = s.below(a.p.m);
      if( a.p.gl[j] < a.p.gu[j] && s.flip() )
      {
         if( a.p.gu[j] < 1e19 )
            a.p.gl[j] = a.p.gu[j] = a.p.gu[j] - s.nice(0, 3);
         else
            a.p.gl[j] += s.nice(0, 10);
      }
      else
      {
         double sh = s.nice(-5, 5);
         if( a.p.gl[j] > -1e19 )
            a.p.gl[j] += sh;
         if( a.p.gu[j] < 1e19 )
            a.p.gu[j] += sh;
      }
   }
   (void)j0;
   a.p.known = false;
   a.o.S("nlp_scaling_method", "none");
   a.o.I("max_iter", 300);
   if( s.flip(0.2) )
      a.o.S("start_with_resto", "yes");
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   t->out = nlp::solve(GetRawPtr(t), a.o);
   bool pen = a.o.str("line_search_method", "filter") != "filter";
   verdict(c, a, *t, !pen);
}

/** nothing left to optimize: all variables fixed */
static void allfixed(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   GenCfg g;
   a.p = s.flip() ? gen_convex(c, g) : gen_general(c, g);
   a.pres = gen_pres(c, a.p);
   a.o = base_opts();
   Vec x;
   for( int i = 0; i < a.p.n; ++i )
   {
      double v = a.p.known && s.flip(0.7) ? a.p.xs[i] : a.p.x0[i];
      if( a.p.xl[i] > -1e19 )
         v = std::max(v, a.p.xl[i]);
      if( a.p.xu[i] < 1e19 )
         v = std::min(v, a.p.xu[i]);
      a.p.xl[i] = a.p.xu[i] = v;
      x.push_back(v);
   }
   Vec gv = a.p.geval(x.data());
   double viol = 0;
   for( int j = 0; j < a.p.m; ++j )
   {
      if( !std::isfinite(gv[j]) )
         c.discard();
      if( s.flip(0.7) )
      {
         // place a side relative to the value
         static const double ds[] = {0, 1e-6, 2e-4, 5e-5, 1e-2, 1, -1e-6, -2e-4, -1e-2, -1};
         double d = ds[s.below(10)];
         if( a.p.gl[j] == a.p.gu[j] )
            a.p.gl[j] = a.p.gu[j] = gv[j] - d;
         else if( a.p.gu[j] < 1e19 )
         {
            a.p.gu[j] = gv[j] - d;
            if( a.p.gl[j] > -1e19 )
               a.p.gl[j] = a.p.gu[j] - 3;
         }
         else
            a.p.gl[j] = gv[j] + d;
      }
      viol = std::max(viol, std::max(a.p.gl[j] > -1e19 ? a.p.gl[j] - gv[j] : 0., a.p.gu[j] < 1e19 ? gv[j] - a.p.gu[j] : 0.));
   }
   a.p.known = false;
   double cvt = 1e-4;
   if( s.flip(0.3) )
      a.o.N("constr_viol_tol", cvt = s.flip() ? 1e-7 : 1e-3);
   static const char* ft[] = {"make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds"};
   int f = s.weighted({4, 2, 1, 1});
   a.o.S("fixed_variable_treatment", ft[f]);
   if( s.flip(0.3) )
      a.o.S("hessian_approximation", "limited-memory");
   if( s.flip(0.3) )
      a.o.S("mu_strategy", "adaptive");
   a.o.S("nlp_scaling_method", s.flip() ? "none" : "gradient-based");
   c.desc << a.show() << pbt::fmt("\nviolation %.10g\n", viol);
   SmartPtr<RecTNLP> t = a.make();
   t->out = nlp::solve(GetRawPtr(t), a.o);
   const Outcome& o = t->out;
   c.label(std::string(ft[f]) + " " + statname(o.app));
   c.nontrivial = a.p.m > 0;
   double slop = 2e-8 * (1 + std::fabs(viol)) + 1e-7;
   if( viol > 1e-2 + slop )
      PBT_CHECK(c, !o.okish() && o.app != Feasible_Point_Found, "success", "all variables fixed (%s), violation %g, but %s", ft[f], viol, statname(o.app));
   if( f < 2 )
   {
      // the constraints at the only point decide, with scaled constraints for the convergence tolerance
      if( viol > cvt * 1.05 + 1e-7 )
         PBT_CHECK(c, o.app == Infeasible_Problem_Detected, "verdict", "all variables fixed as parameters, violation %g > constr_viol_tol %g, but %s", viol, cvt, statname(o.app));
      else if( viol < cvt * 0.95 - 1e-7 || viol == 0 )
         PBT_CHECK(c, o.app == Solve_Succeeded, "verdict", "all variables fixed as parameters, violation %g <= constr_viol_tol %g, but %s", viol, cvt, statname(o.app));
      PBT_CHECK(c, o.nfinal == 1 && eqbits(o.x, x), "point", "all variables fixed: finalize_solution called %d times with %s instead of %s", o.nfinal, vs(o.x).c_str(), vs(x).c_str());
   }
   if( o.okish() && viol == 0 )
      PBT_CHECK(c, maxdiff(o.x, x) <= 1e-7 * (1 + maxabs(x)), "point", "fixed variables moved: %s instead of %s", vs(o.x).c_str(), vs(x).c_str());
}

struct BadTNLP : RecTNLP
{
   int dn = 0, dm = 0, dj = 0, dh = 0;
   bool setn = false, setm = false, setj = false, seth = false;
   bool fail_info = false, fail_bounds = false;
   std::function<void(double*, double*, double*, double*)> bounds;
   BadTNLP(const Problem& q, const Pres& r) : RecTNLP(q, r) { }
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) override
   {
      bool r = RecTNLP::get_nlp_info(n, m, nj, nh, st);
      if( setn )
         n = dn;
      if( setm )
         m = dm;
      if( setj )
         nj = dj;
      if( seth )
         nh = dh;
      return r && !fail_info;
   }
   bool get_bounds_info(Index n, double* xl, double* xu, Index m, double* gl, double* gu) override
   {
      bool r = RecTNLP::get_bounds_info(n, xl, xu, m, gl, gu);
      if( bounds )
         bounds(xl, xu, gl, gu);
      return r && !fail_bounds;
   }
};

static void illposed(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   GenCfg g;
   g.fixed = s.flip(0.4);
   g.mmax = 6;
   a.p = s.flip() ? gen_convex(c, g) : gen_general(c, g);
   a.p.known = false;
   a.pres = gen_pres(c, a.p);
   a.o = base_opts();
   gen_algo_options(c, a.o, OG_STD, 0.05);
   static const char* ft[] = {"make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds"};
   int f = s.below(4);
   a.o.S("fixed_variable_treatment", ft[f]);
   a.o.I("max_iter", 60);
   int kind = s.weighted({3, 3, 4, 2, 1, 2});
   int n = a.p.n, m = a.p.m;
   std::set<int> expect;
   const char* what = "";
   std::string extra;
   std::function<void(double*, double*, double*, double*)> bnd;
   int which = 0, val = 0;
   bool must = true;
   if( kind == 1 && m == 0 )
      kind = 0;
   switch( kind )
   {
      case 0:
      case 1:
      {
         int i = s.below(kind == 0 ? n : m);
         double mid = s.nice(-3, 3), gap = s.flip(0.3) ? 1e-9 : s.flip(0.2) ? 1e19 : s.nice(0.5, 4);
         double lo = mid + gap, up = mid - (s.flip() ? 0 : gap);
         if( s.flip(0.1) )
            lo = INF;
         if( s.flip(0.1) )
            up = -INF;
         if( !(lo > up) )
            c.discard();
         extra = pbt::fmt(" %s %d: lower %.17g upper %.17g", kind == 0 ? "variable" : "constraint", i, lo, up);
         bnd = [ = ](double * xl, double * xu, double * gl, double * gu)
         {
            (kind == 0 ? xl : gl)[i] = lo;
            (kind == 0 ? xu : gu)[i] = up;
         };
         what = kind == 0 ? "crossing variable bounds" : "crossing constraint sides";
         expect.insert(Invalid_Problem_Definition);
         expect.insert(Infeasible_Problem_Detected);
         break;
      }
      case 2:
      {
         // degrees of freedom
         int neq = s.integer(0, n + 2);
         a.p.g.clear();
         a.p.gl.clear();
         a.p.gu.clear();
         for( int j = 0; j < neq; ++j )
         {
            Func q;
            Term t;
            t.kind = s.flip() ? LIN : SQ;
            t.c = 1;
            t.a.push_back(std::make_pair((int)s.below(n), 1.));
            t.a.push_back(std::make_pair((int)((t.a[0].first + 1) % n), (double)s.integer(1, 3)));
            if( n == 1 )
               t.a.pop_back();
            q.t.push_back(t);
            a.p.g.push_back(q);
            a.p.gl.push_back(1);
            a.p.gu.push_back(1);
         }
         if( s.flip() )
         {
            Func q;
            Term t;
            t.kind = LIN;
            t.a.push_back(std::make_pair(0, 1.));
            q.t.push_back(t);
            int at = s.below(neq + 1);
            a.p.g.insert(a.p.g.begin() + at, q);
            a.p.gl.insert(a.p.gl.begin() + at, -1.);
            a.p.gu.insert(a.p.gu.begin() + at, INF);
         }
         a.p.m = a.p.g.size();
         a.pres = plain_pres(a.p);
         int nfix = a.p.nfixed();
         what = "degrees of freedom";
         must = false;
         bool few;
         if( f < 2 )
            few = n - nfix > 0 && n < neq;
         else if( f == 2 )
            few = n < neq || n < neq + nfix;
         else
            few = n < neq;
         extra = pbt::fmt(" %d variables, %d fixed (%s), %d equations", n, nfix, ft[f], neq);
         if( few )
            expect.insert(Not_Enough_Degrees_Of_Freedom);
         break;
      }
      case 3:
         which = s.below(4);
         val = s.flip() ? -1 : -s.integer(2, 100);
         what = "negative count";
         extra = pbt::fmt(" %s = %d", which == 0 ? "n" : which == 1 ? "m" : which == 2 ? "nnz_jac_g" : "nnz_h_lag", val);
         expect.insert(Invalid_Problem_Definition);
         expect.insert(Unrecoverable_Exception);
         expect.insert(Invalid_Option);
         break;
      case 4:
         which = s.below(2);
         what = which ? "get_bounds_info returns false" : "get_nlp_info returns false";
         expect.insert(Invalid_Problem_Definition);
         expect.insert(Unrecoverable_Exception);
         expect.insert(Invalid_Option);
         break;
      case 5:
      {
         // options that contradict each other or cannot be provided
         which = s.below(5);
         what = "contradicting options";
         switch( which )
         {
            case 0: a.o.N("nlp_lower_bound_inf", 1e3).N("nlp_upper_bound_inf", -1e3); break;
            case 1: a.o.S("linear_solver", "pardiso"); a.o.S("pardisolib", "libnonexisting_pardiso.so"); break;
            case 2: a.o.S("linear_solver", "ma27"); a.o.S("hsllib", "libnonexisting_hsl.so"); break;
            case 3: a.o.S("linear_system_scaling", "mc19"); a.o.S("hsllib", "libnonexisting_hsl.so"); break;
            case 4: a.o.S("linear_solver", "custom"); break;
         }
         extra = a.o.show();
         expect.insert(Invalid_Option);
         if( which == 1 || which == 3 )
            expect.insert(Unrecoverable_Exception);
         break;
      }
   }
   c.desc << a.show() << what << extra << "\n";
   RecTNLP* raw;
   BadTNLP* b = new BadTNLP(a.p, a.pres);
   raw = b;
   SmartPtr<RecTNLP> t = raw;
   b->bounds = bnd;
   if( kind == 3 )
   {
      b->setn = which == 0;
      b->setm = which == 1;
      b->setj = which == 2;
      b->seth = which == 3;
      b->dn = b->dm = b->dj = b->dh = val;
   }
   if( kind == 4 )
      (which ? b->fail_bounds : b->fail_info) = true;
   t->out = nlp::solve(GetRawPtr(t), a.o);
   const Outcome& o = t->out;
   c.label(std::string(what) + " " + statname(o.app));
   c.nontrivial = true;
   if( kind == 2 )
   {
      PBT_CHECK(c, expect.empty() == (o.app != Not_Enough_Degrees_Of_Freedom), "status", "%s%s: status %s", what, extra.c_str(), statname(o.app));
      if( !expect.empty() )
         PBT_CHECK(c, o.iters.empty(), "iterations", "%s%s: iterations were made", what, extra.c_str());
      return;
   }
   PBT_CHECK(c, expect.count(o.app), "status", "%s%s: status %s", what, extra.c_str(), statname(o.app));
   PBT_CHECK(c, o.calls[K_F] + o.calls[K_GRAD] + o.calls[K_G] + o.calls[K_JAC] + o.calls[K_HESS] == 0 && o.iters.empty(), "evaluated", "%s%s: functions were evaluated", what, extra.c_str());
   (void)must;
}

int main(int argc, char** argv)
{
   pbt::Check k = {"P03", "the problem is infeasible or ill-posed by construction, or an infeasibility verdict was checked for stationarity", {{"infeasible", infeasible, 2500, 120000}, {"stationary", stationary, 3000, 150000}, {"allfixed", allfixed, 1500, 60000}, {"illposed", illposed, 2500, 60000}}};
   return pbt::run_main(argc, argv, k);
}
