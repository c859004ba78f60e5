// P02: termination by a limit or by the user is reported as exactly that.
#include "anycase.hpp"
#include <chrono>
#include <ctime>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

// A virtual clock: the library asks the C library for the time; while V.on, the answers come from here, and time passes only in the user's functions.
namespace
{
struct Virtual
{
   bool on = false;
   long long wall = 0, user = 0, sys = 0;   // microseconds
} V;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
   if( V.on )
   {
      tv->tv_sec = V.wall / 1000000;
      tv->tv_usec = V.wall % 1000000;
      return 0;
   }
   return (int)syscall(SYS_gettimeofday, tv, (void*)0);
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
   if( V.on )
   {
      long long t = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? V.user + V.sys : V.wall;
      ts->tv_sec = t / 1000000;
      ts->tv_nsec = t % 1000000 * 1000;
      return 0;
   }
   return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int getrusage(__rusage_who_t who, struct rusage* u) noexcept
{
   int rc = (int)syscall(SYS_getrusage, who, u);
   if( V.on )
   {
      u->ru_utime.tv_sec = V.user / 1000000;
      u->ru_utime.tv_usec = V.user % 1000000;
      u->ru_stime.tv_sec = V.sys / 1000000;
      u->ru_stime.tv_usec = V.sys % 1000000;
   }
   return rc;
}
static bool same_iter(const IterInfo& a, const IterInfo& b)
{
   auto e = [](double x, double y) { return x == y || (x != x && y != y); };
   return a.mode == b.mode && a.iter == b.iter && e(a.obj, b.obj) && e(a.inf_pr, b.inf_pr) && e(a.inf_du, b.inf_du) && e(a.mu, b.mu) && e(a.d_norm, b.d_norm) && e(a.reg, b.reg) && e(a.alpha_du, b.alpha_du)
          && e(a.alpha_pr, b.alpha_pr) && a.ls == b.ls;
}
static void check_prefix(Ctx& c, const Outcome& base, const Outcome& r, size_t n)
{
   PBT_CHECK(c, r.iters.size() >= n || r.iters.size() >= base.iters.size(), "short", "only %d of %d reports", (int)r.iters.size(), (int)n);
   for( size_t i = 0; i < n && i < r.iters.size() && i < base.iters.size(); ++i )
      PBT_CHECK(c, same_iter(base.iters[i], r.iters[i]), "prefix", "report %d differs from the run without limit: iter %d/%d obj %.17g/%.17g inf_pr %.17g/%.17g mu %g/%g inf_du %.17g/%.17g d %.17g/%.17g reg %g/%g al %g/%g ls %d/%d mode %d/%d", (int)i, base.iters[i].iter, r.iters[i].iter,
                base.iters[i].obj, r.iters[i].obj, base.iters[i].inf_pr, r.iters[i].inf_pr, base.iters[i].mu, r.iters[i].mu, base.iters[i].inf_du, r.iters[i].inf_du, base.iters[i].d_norm, r.iters[i].d_norm, base.iters[i].reg, r.iters[i].reg, base.iters[i].alpha_pr, r.iters[i].alpha_pr, base.iters[i].ls, r.iters[i].ls, (int)base.iters[i].mode, (int)r.iters[i].mode);
}

static void f_maxiter(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_STOP | AF_LIMITS), c.src.flip(0.3) ? 0.2 : 0.05);
   if( a.o.find("max_resto_iter") )
      c.discard();
   SmartPtr<RecTNLP> t0 = a.make();
   Outcome base = solve(GetRawPtr(t0), a.o);
   if( base.iters.empty() )
      c.discard();
   int N = base.iters.back().iter;
   int k = c.src.flip(0.1) ? N : c.src.integer(0, N + 1);
   a.o.I("max_iter", k);
   c.desc << a.show();
   SmartPtr<RecTNLP> t1 = a.make();
   Outcome r = solve(GetRawPtr(t1), a.o);
   c.desc << " unlimited: " << statname(base.app) << " after iteration " << N << "; limited: " << statname(r.app) << "\n";
   c.nontrivial = k < N && k > 0;
   c.label(statname(r.app));
   for( auto& i : r.iters )
      PBT_CHECK(c, i.iter <= k, "more", "iteration %d reported with max_iter=%d", i.iter, k);
   size_t npre = 0;
   while( npre < base.iters.size() && base.iters[npre].iter <= k - 1 )
      ++npre;
   if( k < N && npre < base.iters.size() && base.iters[npre].iter == k )
      ++npre;
   check_prefix(c, base, r, npre);
   if( k < N )
   {
      // (the final point may be impossible to evaluate)
      PBT_CHECK(c, r.app == Maximum_Iterations_Exceeded || (r.app == Invalid_Number_Detected && (a.faults || base.app == Invalid_Number_Detected)), "status", "max_iter=%d, %d iterations needed, but status is %s", k, N, statname(r.app));
      PBT_CHECK(c, r.iters.back().iter == k, "count", "max_iter=%d, but last reported iteration is %d", k, r.iters.back().iter);
      PBT_CHECK(c, r.iter_count == k || r.nfinal == 0, "count-final", "max_iter=%d, but final iteration count is %d", k, r.iter_count);
      bool resto = false;
      for( auto& i : r.iters )
         resto = resto || i.mode == RestorationPhaseMode;
      if( resto )
         c.label("limit with restoration phase");
      if( !r.iters.empty() && r.iters.back().mode == RestorationPhaseMode )
         c.label("limit within restoration phase");
   }
   else
   {
      // base may itself have ended because of its limit of 150
      if( base.app != Maximum_Iterations_Exceeded )
      {
         if( base.app == r.app )
            PBT_CHECK(c, eqbits(base.x, r.x), "same-x", "a limit that is not reached changes the solution");
         else
            PBT_CHECK(c, r.app == Maximum_Iterations_Exceeded && k == N, "not-exceeded", "max_iter=%d, %d iterations needed, status %s instead of %s", k, N, statname(r.app), statname(base.app));
         // the limit is checked first in the restoration phase, and before multipliers are computed for square problems
         bool resto = false;
         for( auto& i : base.iters )
            resto = resto || i.mode == RestorationPhaseMode;
         int neq = 0;
         for( int j = 0; j < a.p.m; ++j )
            neq += a.p.gl[j] == a.p.gu[j];
         if( r.app != base.app && !resto && neq < a.p.n - a.p.nfixed() )
            PBT_CHECK(c, base.app != Solve_Succeeded && base.app != Diverging_Iterates, "not-exceeded", "max_iter=%d=iterations needed, status %s instead of %s", k, statname(r.app), statname(base.app));
      }
   }
}

static void f_stop(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~AF_STOP, c.src.flip(0.3) ? 0.2 : 0.05);
   SmartPtr<RecTNLP> t0 = a.make();
   Outcome base = solve(GetRawPtr(t0), a.o);
   if( base.iters.empty() )
      c.discard();
   PBT_CHECK(c, base.app != User_Requested_Stop, "never-asked", "status User_Requested_Stop, but nobody asked");
   int j = c.src.below(base.iters.size());
   c.desc << a.show() << " user stops at report " << j << " of " << base.iters.size() << "\n";
   SmartPtr<RecTNLP> t = a.make();
   struct Cnt { long ev[K_COUNT]; Vec x; bool have = false; } cnt;
   t->on_iter = [&](RecTNLP & q, const IterInfo&, const IpoptData * d, IpoptCalculatedQuantities * cq)
   {
      if( (int)q.out.iters.size() - 1 < j )
         return true;
      for( int k = 0; k < K_COUNT; ++k )
         cnt.ev[k] = q.out.calls[k];
      cnt.x.assign(q.p.n, 0.);
      cnt.have = q.get_curr_iterate(d, cq, false, q.p.n, cnt.x.data(), NULL, NULL, 0, NULL, NULL);
      return false;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " unlimited: " << statname(base.app) << "; stopped: " << statname(r.app) << " iteration " << r.iter_count << "\n";
   c.nontrivial = j > 0;
   if( base.iters[j].mode == RestorationPhaseMode )
      c.label("stop in restoration phase");
   // a point that cannot be reported, because evaluating it once more fails, is an exception the statement has
   if( r.app == Invalid_Number_Detected && a.faults )
      c.discard();
   PBT_CHECK(c, r.app == User_Requested_Stop, "status", "callback returned false at report %d, but status is %s", j, statname(r.app));
   PBT_CHECK(c, (int)r.iters.size() == j + 1, "late", "callback returned false at report %d, but %d reports were made", j, (int)r.iters.size());
   check_prefix(c, base, r, j + 1);
   PBT_CHECK(c, r.iter_count == base.iters[j].iter, "count", "stopped in iteration %d, but final iteration count is %d", base.iters[j].iter, r.iter_count);
   if( cnt.have && a.o.str("honor_original_bounds", "no") == "no" )
   {
      for( int i = 0; i < a.p.n; ++i )
         if( cnt.x[i] == cnt.x[i] )
            PBT_CHECK(c, std::fabs(cnt.x[i] - r.x[i]) <= 1e-14 * std::max(1., std::fabs(r.x[i])), "point", "stopped at x%d=%.17g, but the final point has %.17g", i, cnt.x[i], r.x[i]);
      c.label("final point compared");
   }
   // nothing new is evaluated but what the report needs
   long more = 0;
   for( int k : {K_F, K_G, K_GRAD, K_JAC, K_HESS} )
      more = std::max(more, r.calls[k] - cnt.ev[k]);
   PBT_CHECK(c, more <= (a.fd_grad || a.fd_jac ? a.p.n + 2 : 2), "work", "%ld evaluations of one kind after the user asked to stop", more);
}

static void f_time(Ctx& c)
{
   Any a;
   int fl = AF_ALL & ~(AF_STOP | AF_FAULTS | AF_LIMITS | AF_DT);
   gen_any(c, a, fl, c.src.flip(0.3) ? 0.2 : 0.05);
   bool usecpu = c.src.flip();
   if( c.src.flip(0.35) )
      a.o.S("start_with_resto", "yes");
   // the user's functions take their time, in microseconds; wall clock time passes at least as fast as CPU time
   long long slow = (long long)c.src.logreal(20, 2e6);
   double T = slow * 1e-6 * c.src.logreal(0.5, 80);
   double cpurate = c.src.flip() ? 1 : c.src.real(0.05, 1), sysrate = c.src.flip() ? 0 : c.src.real(0, 1);
   Any b = a;
   a.o.N(usecpu ? "max_cpu_time" : "max_wall_time", T);
   int slowk = c.src.weighted({3, 3, 3, 3, 2, 6});
   static const int kinds[] = {K_F, K_G, K_GRAD, K_JAC, K_HESS, K_ITER};
   int kk = kinds[slowk];
   bool tick = c.src.flip(0.3);       // everything else takes a bit, too
   c.desc << a.show() << pbt::fmt(" limit %g, evaluations of kind %d take %g s (user %g, system %g)%s\n", T, slowk, slow * 1e-6, cpurate, sysrate, tick ? ", others 1e-6" : "");
   long long t00 = (long long)c.src.below(4) * 500000000000000LL + 123456789;
   auto pass = [ = ](long long us)
   {
      V.wall += us;
      long long u = (long long)(us * cpurate);
      V.user += u;
      V.sys += (long long)((us - u) * sysrate);
   };
   auto clk = [ = ] { return usecpu ? V.user : V.wall; };
   struct Off
   {
      ~Off()
      {
         V.on = false;
      }
   } off;
   // the run without time limit
   Outcome base;
   {
      V.on = true;
      V.wall = t00;
      V.user = V.sys = 0;
      SmartPtr<RecTNLP> tb = b.make();
      base = solve(GetRawPtr(tb), b.o);
   }
   SmartPtr<RecTNLP> t = a.make();
   V.wall = t00;
   V.user = (long long)c.src.below(3) * 77777777;
   V.sys = 0;
   t->on_eval = [ = ](int kind, const double*)
   {
      pass(kind == kk ? slow : tick);
   };
   long long first = -1;
   std::vector<long long> at;
   std::vector<bool> rs;
   t->on_iter = [&](RecTNLP&, const IterInfo& inf, const IpoptData*, IpoptCalculatedQuantities*)
   {
      if( kk == K_ITER )
         pass(slow);
      long long now = clk();
      if( first < 0 )
         first = now;
      at.push_back(now - first);
      rs.push_back(inf.mode == RestorationPhaseMode);
      return true;
   };
   long long t0 = clk();
   Outcome r = solve(GetRawPtr(t), a.o);
   double used = (clk() - t0) * 1e-6;
   V.on = false;
   c.label(statname(r.app));
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   ApplicationReturnStatus mine = usecpu ? Maximum_CpuTime_Exceeded : Maximum_WallTime_Exceeded;
   PBT_CHECK(c, r.app != (usecpu ? Maximum_WallTime_Exceeded : Maximum_CpuTime_Exceeded), "other", "status %s without such a limit", statname(r.app));
   if( r.app == mine )
   {
      c.nontrivial = r.iters.size() > 1;
      PBT_CHECK(c, used >= T * (1 - 1e-9) - 2e-6, "early", "%s although only %g of %g s are used", statname(r.app), used, T);
      if( r.iters.size() && r.iters.back().mode == RestorationPhaseMode )
         c.label("time limit in restoration phase");
      // in square problems, multipliers are computed only if the limit is not exceeded: the last report may differ
      check_prefix(c, base, r, r.iters.size() - (r.iters.size() > 0));
   }
   else
   {
      PBT_CHECK(c, r.app == base.app && r.iters.size() == base.iters.size(), "changed", "%s after %d reports, but %s after %d without the limit", statname(r.app), (int)r.iters.size(), statname(base.app),
                (int)base.iters.size());
      check_prefix(c, base, r, r.iters.size());
   }
   // the limit is checked after each report: a report after the limit was exceeded must be the last.
   // What is evaluated while a restoration phase is set up may not be counted.
   int setups = 0;
   for( size_t i = 0; i + 1 < at.size(); ++i )
   {
      if( rs[i] && (!i || !rs[i - 1]) )
         ++setups;
      double slack = 2e-6 + (kk == K_ITER ? 1 : setups ? (4. + (a.fd_grad || a.fd_jac ? 2 * a.p.n + 2 : 0)) : 0) * slow * 1e-6 + tick * 1e-4;
      if( !(rs[i] && !rs[i + 1]) )   // a restoration phase that is finished returns first
         PBT_CHECK(c, at[i] * 1e-6 <= T + slack, "late", "limit %g, but iterations continue after report %d at %g s", T, (int)i, at[i] * 1e-6);
   }
}

static void f_diverge(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_STOP | AF_FAULTS | AF_LIMITS | AF_USERSCALE), c.src.flip(0.3) ? 0.2 : 0.05);
   // make divergence likely: unbounded directions or a small threshold
   if( c.src.flip() && a.p.f.t.size() )
   {
      a.p.known = false;
      a.p.convex = false;
      Term q;
      q.kind = LIN;
      q.c = c.src.flip() ? 50 : -50;
      q.a.push_back(std::make_pair((int)c.src.below(a.p.n), 1.));
      a.p.f.t.push_back(q);
      a.pres = plain_pres(a.p);
   }
   double tol = c.src.logreal(2, 1e5);
   a.o.N("diverging_iterates_tol", tol);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   std::vector<double> am;
   std::vector<bool> resto;
   t->on_iter = [&](RecTNLP & q, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * cq)
   {
      (void)q; (void)cq;
      am.push_back(d->curr()->x()->Amax());
      resto.push_back(i.mode == RestorationPhaseMode);
      return true;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(statname(r.app));
   if( r.app == Diverging_Iterates )
   {
      c.nontrivial = true;
      PBT_CHECK(c, !am.empty() && am.back() > tol, "not-diverging", "Diverging_Iterates, but largest component is %g <= %g", am.empty() ? 0. : am.back(), tol);
      double mx = 0;
      for( double v : r.x )
         mx = std::max(mx, std::fabs(v));
      PBT_CHECK(c, resto.back() || mx >= tol * (1 - 1e-12) || a.o.str("honor_original_bounds", "no") == "yes", "point", "Diverging_Iterates, but returned point has largest component %g <= %g", mx, tol);
   }
   for( size_t i = 0; i + 1 < am.size(); ++i )
      if( !resto[i] )
         PBT_CHECK(c, !(am[i] > tol), "continued", "report %d has a component of size %g > %g, but the algorithm went on", (int)i, am[i], tol);
}

int main(int argc, char** argv)
{
   pbt::Check ck = {"P02", "the run was ended by the limit (or user) under test after at least one iteration",
      {{"maxiter", f_maxiter, 5000, 400000}, {"stop", f_stop, 4000, 300000}, {"time", f_time, 6000, 200000}, {"diverge", f_diverge, 4000, 300000}}
   };
   return pbt::run_main(argc, argv, ck);
}
