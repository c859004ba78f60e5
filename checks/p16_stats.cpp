// P16: statistics, output files and printed reports match what happened.
#include "anycase.hpp"
#include "IpJournalist.hpp"
#include <cstring>
#include <fstream>
#include <unistd.h>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static bool eqr(double a, double b, double rel = 1e-12)
{
   return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b));
}
static bool infinite_stat(const Outcome& r)
{
   for( double v : {r.st_obj, r.st_dual, r.st_constr, r.st_bound, r.st_compl, r.st_kkt, r.st_sobj, r.st_sdual, r.st_sconstr, r.st_sbound, r.st_scompl, r.st_skkt} )
      if( !std::isfinite(v) )
         return true;
   return false;
}
static bool hands_back(ApplicationReturnStatus s)
{
   switch( s )
   {
      case Solve_Succeeded: case Solved_To_Acceptable_Level: case Infeasible_Problem_Detected: case Search_Direction_Becomes_Too_Small:
      case Diverging_Iterates: case User_Requested_Stop: case Feasible_Point_Found: case Maximum_Iterations_Exceeded: case Restoration_Failed:
      case Error_In_Step_Computation: case Maximum_CpuTime_Exceeded: case Maximum_WallTime_Exceeded:
         return true;
      default:
         return false;
   }
}
struct Counts { long f, g, grad, jac, h; };

static void check_stats(Ctx& c, const Any& a, RecTNLP& t, const Outcome& r, const Counts& atfinal)
{
   const Problem& p = a.p;
   if( !hands_back(r.app) )
   {
      PBT_CHECK(c, !r.have_stats, "stats-without-solution", "statistics available although the status is %s", statname(r.app));
      return;
   }
   PBT_CHECK(c, r.have_stats, "stats-missing", "no statistics although the status is %s", statname(r.app));
   c.nontrivial = true;
   // iterations
   int last = r.iters.empty() ? -1 : r.iters.back().iter;
   bool resto_end = !r.iters.empty() && r.iters.back().mode == RestorationPhaseMode;
   if( last >= 0 )
      PBT_CHECK(c, r.iter_count == last || (r.iter_count == last - 1 && resto_end) || (r.iter_count == last + 1 && (resto_end || r.app != Solve_Succeeded)), "iter-count",
                "statistics report %d iterations, the last report was for iteration %d (%s)", r.iter_count, last, statname(r.app));
   // number of evaluations
   bool fd = a.fd_grad || a.fd_jac;
   bool dep = a.o.str("dependency_detector", "none") != "none";
   bool noscal = a.o.str("nlp_scaling_method", "gradient-based") == "none" || a.userscale;
   bool fixdual = p.nfixed() > 0;
   bool resto = false;
   for( auto& i : r.iters )
      resto = resto || i.mode == RestorationPhaseMode;
   if( !a.dt && !fd && t.faulted == 0 )
   {
      if( noscal && !fixdual && !dep )
      {
         c.label("evaluation counts compared exactly");
         PBT_CHECK(c, r.ev_f == atfinal.f, "count-f", "statistics report %d objective evaluations, the user received %ld calls", r.ev_f, atfinal.f);
         PBT_CHECK(c, r.ev_g == atfinal.grad, "count-grad", "statistics report %d objective gradient evaluations, the user received %ld calls", r.ev_g, atfinal.grad);
         if( !a.lbfgs && !resto )
            PBT_CHECK(c, r.ev_h == atfinal.h, "count-hess", "statistics report %d Hessian evaluations, the user received %ld calls", r.ev_h, atfinal.h);
      }
      PBT_CHECK(c, r.ev_f <= atfinal.f + 0, "count-f", "statistics report %d objective evaluations, the user received only %ld calls", r.ev_f, atfinal.f);
      PBT_CHECK(c, r.ev_g <= atfinal.grad, "count-grad", "statistics report %d objective gradient evaluations, the user received only %ld calls", r.ev_g, atfinal.grad);
      // a Hessian with all weights zero (restoration phase) is zero without asking the user
      PBT_CHECK(c, r.ev_h == atfinal.h || a.lbfgs || (resto && r.ev_h >= atfinal.h), "count-hess", "statistics report %d Hessian evaluations, the user received %ld calls", r.ev_h, atfinal.h);
      bool onekind = true;
      for( int j = 0; j < p.m; ++j )
         onekind = onekind && (p.gl[j] == p.gu[j]) == (p.gl[0] == p.gu[0]);
      // equality and inequality parts are requested separately, so both kinds together give only bounds
      if( p.m > 0 && noscal && !fixdual && !dep && !onekind )
      {
         PBT_CHECK(c, 2 * r.ev_c + 2 >= atfinal.g, "count-g", "statistics report %d constraint evaluations, the user received %ld calls", r.ev_c, atfinal.g);
         PBT_CHECK(c, 2 * r.ev_j >= atfinal.jac, "count-jac", "statistics report %d constraint Jacobian evaluations, the user received %ld calls", r.ev_j, atfinal.jac);
      }
      if( p.m > 0 && noscal && !fixdual && !dep && onekind )
      {
         // the constraint values handed to finalize_solution may be computed again after the statistics were taken
         PBT_CHECK(c, r.ev_c == atfinal.g || r.ev_c + 1 == atfinal.g, "count-g", "statistics report %d constraint evaluations, the user received %ld calls", r.ev_c, atfinal.g);
         PBT_CHECK(c, r.ev_j == atfinal.jac, "count-jac", "statistics report %d constraint Jacobian evaluations, the user received %ld calls", r.ev_j, atfinal.jac);
      }
      if( p.m > 0 )
      {
         PBT_CHECK(c, r.ev_c <= atfinal.g, "count-g", "statistics report %d constraint evaluations, the user received only %ld calls", r.ev_c, atfinal.g);
         PBT_CHECK(c, r.ev_j <= atfinal.jac, "count-jac", "statistics report %d constraint Jacobian evaluations, the user received only %ld calls", r.ev_j, atfinal.jac);
      }
   }
   if( infinite_stat(r) )
   {
      c.label("infinite values in the statistics");
      return;
   }
   PBT_CHECK(c, r.st_dual >= 0 && r.st_constr >= 0 && r.st_bound >= 0 && r.st_compl >= 0 && r.st_kkt >= 0 && r.st_sdual >= 0 && r.st_sconstr >= 0 && r.st_sbound >= 0 && r.st_scompl >= 0
             && r.st_skkt >= 0, "negative", "negative measures in the statistics");
   double mut = a.o.num("mu_target", 0);
   double k1 = std::max(r.st_dual, std::max(r.st_constr, r.st_compl));
   PBT_CHECK(c, mut > 0 || std::fabs(k1 - r.st_kkt) <= 1e-12 * k1, "kkt", "KKT error %.17g, but maximum of dual infeasibility %.17g, violation %.17g and complementarity %.17g is %.17g", r.st_kkt, r.st_dual, r.st_constr, r.st_compl, k1);
   double k2 = std::max(r.st_sdual, std::max(r.st_sconstr, r.st_scompl));
   PBT_CHECK(c, r.st_skkt <= k2 * (1 + 1e-12) + mut && r.st_skkt >= r.st_sconstr * (1 - 1e-12), "scaled-kkt", "scaled KKT error %.17g outside [%.17g,%.17g]", r.st_skkt, r.st_sconstr, k2);
   bool plain = a.o.str("nlp_scaling_method", "gradient-based") == "none";
   double osf = a.o.num("obj_scaling_factor", 1);
   double of = osf * (a.userscale ? t.obj_scaling : 1.);
   if( plain || a.userscale )
   {
      PBT_CHECK(c, eqr(r.st_sobj, r.st_obj * of), "scaled-obj", "objective %.17g, factor %.17g, scaled objective %.17g", r.st_obj, of, r.st_sobj);
   }
   if( plain )
   {
      PBT_CHECK(c, eqr(r.st_sconstr, r.st_constr) && eqr(r.st_sbound, r.st_bound), "scaled-constr", "no scaling of x and g, but violations are %.17g/%.17g and scaled %.17g/%.17g", r.st_constr, r.st_bound, r.st_sconstr, r.st_sbound);
      PBT_CHECK(c, eqr(r.st_sdual, r.st_dual * std::fabs(of)) && eqr(r.st_scompl, r.st_compl * std::fabs(of)), "scaled-dual", "objective factor %g, but dual infeasibility/complementarity is %.17g/%.17g and scaled %.17g/%.17g", of, r.st_dual, r.st_compl, r.st_sdual,
                r.st_scompl);
   }
   // against the last iteration report, if it shows the final point
   if( last >= 0 && r.iters.back().mode == RegularMode && r.iter_count == last )
   {
      const IterInfo& i = r.iters.back();
      bool same = eqr(i.obj, r.st_obj) && eqr(i.inf_du, r.st_sdual);
      // the last report is for the final point unless the method ended by something other than a convergence test
      bool must = r.app == Solve_Succeeded || r.app == User_Requested_Stop || r.app == Diverging_Iterates;
      // a limit ends a watchdog phase by going back to the point where it began
      must = must || ((r.app == Maximum_Iterations_Exceeded || r.app == Maximum_CpuTime_Exceeded || r.app == Maximum_WallTime_Exceeded) && a.o.num("watchdog_shortened_iter_trigger", 10) == 0);
      if( must )
      {
         PBT_CHECK(c, eqr(i.obj, r.st_obj), "last-obj", "last report has objective %.17g, statistics %.17g (%s)", i.obj, r.st_obj, statname(r.app));
         PBT_CHECK(c, eqr(i.inf_du, r.st_sdual, 1e-10), "last-dual", "last report has dual infeasibility %.17g, statistics %.17g (%s)", i.inf_du, r.st_sdual, statname(r.app));
      }
      c.label(same ? "last report equals statistics" : "last report differs");
   }
   // against the returned point
   if( r.nfinal != 1 || t.faulted || a.o.str("honor_original_bounds", "no") == "yes" )
      return;
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   bool fixspecial = p.nfixed() > 0 && (ft == "make_constraint" || ft == "relax_bounds");
   bool repb = a.o.str("replace_bounds", "no") == "yes";
   double brf = a.o.num("bound_relax_factor", 1e-8), cvt = a.o.num("constr_viol_tol", 1e-4);
   double xm = std::max(1., maxabs(r.x));
   double moved = a.o.num("slack_move", 1.82e-12) * (r.iters.size() + 2.);
   if( !fixspecial )
   {
      double bv = 0;
      for( int i = 0; i < p.n; ++i )
      {
         if( p.fixed(i) )
            continue;
         if( p.xl[i] > -1e19 )
            bv = std::max(bv, p.xl[i] - r.x[i]);
         if( p.xu[i] < 1e19 )
            bv = std::max(bv, r.x[i] - p.xu[i]);
      }
      if( !repb )
         PBT_CHECK(c, std::fabs(bv - r.st_bound) <= 1e-11 * xm + moved * xm, "bound-viol", "the returned point violates the bounds by %.17g, statistics say %.17g", bv, r.st_bound);
      c.label("bound violation compared");
   }
   bool fin = true;
   double gmag = 1;
   for( double v : r.g )
   {
      fin = fin && std::isfinite(v) && std::fabs(v) < 1e100;
      gmag = std::max(gmag, std::fabs(v));
   }
   for( double v : r.lam )
      fin = fin && std::isfinite(v);
   if( fin )
   {
      double cv = 0, bm = 1;
      for( int j = 0; j < p.m; ++j )
      {
         if( p.gl[j] > -1e19 )
            cv = std::max(cv, p.gl[j] - r.g[j]), bm = std::max(bm, std::fabs(p.gl[j]));
         if( p.gu[j] < 1e19 )
            cv = std::max(cv, r.g[j] - p.gu[j]), bm = std::max(bm, std::fabs(p.gu[j]));
      }
      double tol = std::min(brf * bm, cvt) + 1e-12 * (bm + gmag) + moved * bm;
      if( repb )
         tol += 1e-3;
      if( fixspecial )
         PBT_CHECK(c, r.st_constr >= cv - tol || dep, "constr-viol", "constraints at the returned point are violated by %.17g, statistics say %.17g", cv, r.st_constr);
      else if( !dep )
         PBT_CHECK(c, std::fabs(cv - r.st_constr) <= tol, "constr-viol", "constraints at the returned point are violated by %.17g, statistics say %.17g", cv, r.st_constr);
      c.label("constraint violation compared");
   }
   if( fin && !a.fd_grad && !a.fd_jac && !repb && of > 0 )
   {
      KKT k = kkt(p, r.x, r.lam, r.zl, r.zu);
      double d = 0, cm = 0, mag = 1;
      Vec gr(p.n, 0.);
      // sum of the moduli of everything added up, term by term (cancellation inside one entry counts)
      for( int j = -1; j < p.m; ++j )
         for( const Term& t : (j < 0 ? p.f : p.g[j]).t )
         {
            Vec g2(p.n, 0.);
            Func one;
            one.t.push_back(t);
            one.grad(r.x.data(), g2.data());
            for( int i = 0; i < p.n; ++i )
               gr[i] += std::fabs(g2[i] * (j < 0 ? 1. : r.lam[j]));
         }
      for( int i = 0; i < p.n; ++i )
      {
         mag = std::max(mag, std::fabs(gr[i]) + r.zl[i] + r.zu[i]);
         if( p.fixed(i) )
            continue;
         d = std::max(d, std::fabs(k.r[i]));
         if( p.xl[i] > -1e19 )
            cm = std::max(cm, std::fabs(r.x[i] - p.xl[i]) * r.zl[i]);
         if( p.xu[i] < 1e19 )
            cm = std::max(cm, std::fabs(p.xu[i] - r.x[i]) * r.zu[i]);
      }
      bool ineq = false;
      for( int j = 0; j < p.m; ++j )
         ineq = ineq || p.gl[j] < p.gu[j];
      double zm = std::max(maxabs(r.zl), maxabs(r.zu));
      if( mag < 1e20 && std::isfinite(d) )
      {
         double tol = 1e-9 * mag * (1 + maxabs(r.x));
         PBT_CHECK(c, r.st_dual >= d - tol, "dual-inf", "the gradient of the Lagrangian at the returned point is %.17g, statistics say %.17g", d, r.st_dual);
         if( !ineq && !fixspecial )
            PBT_CHECK(c, r.st_dual <= d + tol, "dual-inf", "the gradient of the Lagrangian at the returned point is %.17g, statistics say %.17g", d, r.st_dual);
         // bounds are relaxed
         double tc = zm * (std::min(brf * std::max(1., 1e2 * xm), cvt) + 1e-12 * xm + moved * xm * 100) + 1e-12;
         double bm = 1;
         for( int i = 0; i < p.n; ++i )
         {
            if( p.xl[i] > -1e19 )
               bm = std::max(bm, std::fabs(p.xl[i]));
            if( p.xu[i] < 1e19 )
               bm = std::max(bm, std::fabs(p.xu[i]));
         }
         tc += zm * brf * bm;
         PBT_CHECK(c, r.st_compl >= cm - tc, "compl", "the complementarity at the returned point is %.17g, statistics say %.17g", cm, r.st_compl);
         if( !ineq && !fixspecial )
            PBT_CHECK(c, r.st_compl <= cm + tc, "compl", "the complementarity at the returned point is %.17g, statistics say %.17g", cm, r.st_compl);
         c.label("dual infeasibility and complementarity compared");
      }
   }
}

struct Run
{
   Outcome r;
   Counts atf;
   std::vector<double> nlpviol;     ///< unscaled NLP constraint violation at each report (-1 unknown)
};
static void hook(Ctx& c, Any& a, RecTNLP& t, Run& R)
{
   (void)c;
   (void)a;
   R.atf = Counts{0, 0, 0, 0, 0};
   RecTNLP* tp = &t;
   Run* rp = &R;
   t.on_final = [rp, tp](RecTNLP & q, const IpoptData*, IpoptCalculatedQuantities*)
   {
      rp->atf = Counts{q.out.calls[K_F], q.out.calls[K_G], q.out.calls[K_GRAD], q.out.calls[K_JAC], q.out.calls[K_HESS]};
   };
   auto prev = t.on_iter;
   t.on_iter = [rp, tp, prev](RecTNLP & q, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * cq)
   {
      double v = -1;
      if( q.p.m > 0 )
      {
         int n = q.p.n, m = q.p.m;
         Vec a1(n), a2(n), a3(n), a4(n), a5(n), b1(m), b2(m);
         if( q.get_curr_violations(d, cq, false, n, a1.data(), a2.data(), a3.data(), a4.data(), a5.data(), m, b1.data(), b2.data()) )
            v = maxabs(b1);
      }
      else
         v = 0;
      rp->nlpviol.push_back(v);
      return prev ? prev(q, i, d, cq) : true;
   };
}
static void tune(Ctx& c, Any& a)
{
   if( c.src.flip(0.3) )
      a.o.S("nlp_scaling_method", "none");
   if( a.userscale )
      a.o.S("nlp_scaling_method", "user-scaling");
   if( c.src.flip(0.1) )
      a.o.N("mu_target", c.src.flip() ? 1e-3 : 1e-1);
}
static void f_stats(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL, c.src.flip(0.3) ? 0.2 : 0.05);
   tune(c, a);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Run R;
   hook(c, a, *t, R);
   R.r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(R.r.app) << " after " << R.r.iters.size() << " reports\n";
   c.label(statname(R.r.app));
   check_stats(c, a, *t, R.r, R.atf);
}
/* ------------------------------------------------------------------ log */
static std::string slurp(const std::string& f)
{
   std::ifstream in(f.c_str());
   std::ostringstream s;
   s << in.rdbuf();
   return s.str();
}
static std::vector<std::string> lines(const std::string& s)
{
   std::vector<std::string> v;
   std::istringstream in(s);
   std::string l;
   while( std::getline(in, l) )
      v.push_back(l);
   return v;
}
static const char* exitmsg(ApplicationReturnStatus s)
{
   switch( s )
   {
      case Solve_Succeeded: return "EXIT: Optimal Solution Found.";
      case Maximum_Iterations_Exceeded: return "EXIT: Maximum Number of Iterations Exceeded.";
      case Maximum_CpuTime_Exceeded: return "EXIT: Maximum CPU time exceeded.";
      case Maximum_WallTime_Exceeded: return "EXIT: Maximum wallclock time exceeded.";
      case Search_Direction_Becomes_Too_Small: return "EXIT: Search Direction is becoming Too Small.";
      case Solved_To_Acceptable_Level: return "EXIT: Solved To Acceptable Level.";
      case Feasible_Point_Found: return "EXIT: Feasible point for square problem found.";
      case Diverging_Iterates: return "EXIT: Iterates diverging; problem might be unbounded.";
      case Restoration_Failed: return "EXIT: Restoration Failed!";
      case Error_In_Step_Computation: return "EXIT: Error in step computation!";
      case Infeasible_Problem_Detected: return "EXIT: Converged to a point of local infeasibility. Problem may be infeasible.";
      case User_Requested_Stop: return "EXIT: Stopping optimization at current point as requested by user.";
      case Invalid_Number_Detected: return "EXIT: Invalid number in NLP function or derivative detected.";
      case Not_Enough_Degrees_Of_Freedom: return "EXIT: Problem has too few degrees of freedom.";
      case Invalid_Option: return "EXIT: Invalid option encountered.";
      case Invalid_Problem_Definition: return "EXIT: Problem has inconsistent variable bounds or constraint sides.";
      case Unrecoverable_Exception: return "EXIT: Some uncaught Ipopt exception encountered.";
      case Insufficient_Memory: return "EXIT: Not enough memory.";
      default: return NULL;
   }
}
struct LogLine { int iter; char mode; std::string obj, ip, id, mu, dn, rg, ad, ap; char ch; int ls; std::string rest, all; };
/** an iteration line as the documentation describes its columns */
static bool parse_iter(const std::string& l, LogLine& q)
{
   const char* s = l.c_str();
   while( *s == ' ' )
      ++s;
   if( !isdigit((unsigned char)*s) )
      return false;
   char* e;
   q.iter = (int)strtol(s, &e, 10);
   if( *e != ' ' && *e != 'r' )
      return false;
   q.mode = *e++;
   auto tok = [&](std::string& out)
   {
      while( *e == ' ' )
         ++e;
      const char* b = e;
      while( *e && *e != ' ' )
         ++e;
      out.assign(b, e - b);
      return !out.empty();
   };
   if( !tok(q.obj) || !tok(q.ip) || !tok(q.id) || !tok(q.mu) || !tok(q.dn) || !tok(q.rg) || !tok(q.ad) )
      return false;
   // alpha_pr is followed by its character without separator
   std::string apc;
   while( *e == ' ' )
      ++e;
   char* e2;
   const char* b = e;
   double ap = strtod(b, &e2);
   (void)ap;
   if( e2 == b || !*e2 )
      return false;
   q.ap.assign(b, e2 - b);
   q.ch = *e2++;
   char* e3;
   q.ls = (int)strtol(e2, &e3, 10);
   if( e3 == e2 )
      return false;
   q.rest = e3;
   q.all = l;
   auto isnum = [](const std::string & z)
   {
      char* x;
      strtod(z.c_str(), &x);
      return *x == 0;
   };
   return isnum(q.obj) && isnum(q.ip) && isnum(q.id) && isnum(q.mu) && isnum(q.dn) && isnum(q.ad) && (q.rg == "-" || isnum(q.rg));
}
static std::string trim(const std::string& s)
{
   size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
   return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static std::string regu(double v)
{
   if( v == 0. )
      return "-";
   char b[64];
   snprintf(b, 7, "%5.1f", std::log10(v));
   return trim(b);
}
static void check_log(Ctx& c, const Any& a, const Run& R, const std::string& text, int level, int freq, bool info, bool internal, bool onlysum)
{
   const Outcome& r = R.r;
   std::vector<std::string> L = lines(text);
   // exit message
   int nexit = 0;
   size_t exitat = 0;
   for( size_t k = 0; k < L.size(); ++k )
      if( L[k].compare(0, 5, "EXIT:") == 0 )
      {
         ++nexit;
         exitat = k;
      }
   const char* em = exitmsg(r.app);
   if( level >= 3 )
   {
      if( em )
      {
         PBT_CHECK(c, nexit == 1, "exit-count", "%d EXIT messages at print level %d, status %s", nexit, level, statname(r.app));
         PBT_CHECK(c, trim(L[exitat]) == em, "exit-text", "status %s but the log says '%s'", statname(r.app), L[exitat].c_str());
      }
   }
   else
      PBT_CHECK(c, nexit == 0, "exit-count", "EXIT message at print level %d", level);
   // the printed violation is that of the relaxed constraints, the queried one that of the original ones
   double relax = 1;
   for( int j = 0; j < a.p.m; ++j )
   {
      if( a.p.gl[j] > -1e19 )
         relax = std::max(relax, std::fabs(a.p.gl[j]));
      if( a.p.gu[j] < 1e19 )
         relax = std::max(relax, std::fabs(a.p.gu[j]));
   }
   relax = relax * (a.o.num("bound_relax_factor", 1e-8) + 1e-10);
   // iteration lines
   std::vector<LogLine> I;
   std::vector<size_t> at, head;
   for( size_t k = 0; k < L.size(); ++k )
   {
      LogLine q;
      if( parse_iter(L[k], q) )
      {
         I.push_back(q);
         at.push_back(k);
      }
      else if( L[k].compare(0, 18, "iter    objective ") == 0 )
         head.push_back(k);
   }
   if( level < 5 )
      PBT_CHECK(c, I.empty() && head.empty(), "lines-level", "%d iteration lines at print level %d: %s", (int)I.size(), level, I.empty() ? "" : I[0].all.c_str());
   else
   {
      // reports that have a line
      std::vector<size_t> E;
      for( size_t k = 0; k < r.iters.size(); ++k )
         if( r.iters[k].iter % freq == 0 )
            E.push_back(k);
      size_t li = 0;
      std::string why;
      for( size_t k = 0; k < E.size(); ++k )
      {
         const IterInfo& i = r.iters[E[k]];
         // a report repeated after restoration (same counter, regular mode) has no line of its own
         bool again = E[k] > 0 && i.mode == RegularMode && r.iters[E[k] - 1].mode == RestorationPhaseMode;
         bool matched = false;
         if( li < I.size() )
         {
            const LogLine& q = I[li];
            matched = q.iter == i.iter && q.mode == (i.mode == RegularMode ? ' ' : 'r');
            if( matched )
            {
               using pbt::fmt;
               auto cmp = [&](const char* what, const std::string & got, const std::string & want)
               {
                  PBT_CHECK(c, got == trim(want), "column", "iteration %d: %s printed as '%s', report has '%s'\n   line: %s", i.iter, what, got.c_str(), trim(want).c_str(), q.all.c_str());
               };
               cmp("objective", q.obj, fmt("%14.7e", i.obj));
               cmp("inf_du", q.id, fmt("%7.2e", i.inf_du));
               cmp("lg(mu)", q.mu, fmt("%5.1f", std::log10(i.mu)));
               cmp("||d||", q.dn, fmt("%7.2e", i.d_norm));
               cmp("lg(rg)", q.rg, regu(i.reg));
               cmp("alpha_du", q.ad, fmt("%7.2e", i.alpha_du));
               cmp("alpha_pr", q.ap, fmt("%7.2e", i.alpha_pr));
               PBT_CHECK(c, q.ls == i.ls, "column", "iteration %d: ls printed as %d, report has %d\n   line: %s", i.iter, q.ls, i.ls, q.all.c_str());
               if( internal )
                  cmp("inf_pr", q.ip, fmt("%7.2e", i.inf_pr));
               else if( R.nlpviol[E[k]] >= 0. && std::isfinite(R.nlpviol[E[k]]) )
               {
                  double got = strtod(q.ip.c_str(), NULL), want = R.nlpviol[E[k]];
                  PBT_CHECK(c, std::fabs(got - want) <= 0.006 * want + relax + 1e-300 || onlysum, "column", "iteration %d: inf_pr printed as %s, violation is %.17g\n   line: %s", i.iter, q.ip.c_str(), want, q.all.c_str());
               }
               if( !info && level < 6 )
                  PBT_CHECK(c, trim(q.rest) == "", "info-string", "info string '%s' printed without print_info_string", q.rest.c_str());
               ++li;
            }
         }
         if( !matched && !again && !(k + 1 == E.size() && (!hands_back(r.app) || (i.mode == RestorationPhaseMode && r.app != User_Requested_Stop && r.app != Maximum_Iterations_Exceeded))) )
            c.fail("line-missing", "no line for report %d (iteration %d, %s); next line: %s", (int)E[k], i.iter, i.mode == RegularMode ? "regular" : "restoration", li < I.size() ? I[li].all.c_str() : "none");
      }
      // at most one unreported line at the end (run ended between printing and reporting)
      PBT_CHECK(c, I.size() - li <= (hands_back(r.app) && r.app != Restoration_Failed && r.app != Error_In_Step_Computation && r.app != Infeasible_Problem_Detected && r.app != Search_Direction_Becomes_Too_Small ? 0u : 1u), "line-extra",
                "%d iteration lines without report, first: %s", (int)(I.size() - li), I[li].all.c_str());
      // a header at the beginning and after every ten lines
      if( level == 5 && !I.empty() )
      {
         PBT_CHECK(c, !head.empty() && head[0] < at[0], "header", "no header before the first iteration line");
         size_t h = 0, cnt = 0;
         for( size_t k = 0; k < at.size(); ++k )
         {
            while( h < head.size() && head[h] < at[k] )
            {
               PBT_CHECK(c, k == 0 || cnt == 10, "header", "header after %d lines", (int)cnt);
               cnt = 0;
               ++h;
            }
            ++cnt;
            PBT_CHECK(c, cnt <= 10, "header", "more than ten lines without header");
         }
         if( at.size() > 10 )
            c.label("log with repeated headers");
      }
      c.label("iteration lines compared");
   }
   // summary
   if( hands_back(r.app) && level >= 3 )
   {
      auto find = [&](const char* key, double* v, int nv)
      {
         // the detailed output of iterations uses the same words: the summary is last
         for( size_t k = L.size(); k-- > 0; )
            if( L[k].compare(0, strlen(key), key) == 0 )
            {
               const char* s = L[k].c_str() + strlen(key);
               while( *s == '.' || *s == ':' || *s == ' ' || *s == '=' )
                  ++s;
               char* e = const_cast<char*>(s);
               for( int q = 0; q < nv; ++q )
                  v[q] = strtod(e, &e);
               return true;
            }
         return false;
      };
      struct { const char* key; double s, u; } T[] = {
         {"Objective..", r.st_sobj, r.st_obj}, {"Dual infeasibility..", r.st_sdual, r.st_dual}, {"Constraint violation..", r.st_sconstr, r.st_constr}, {"Variable bound violation", r.st_sbound, r.st_bound},
         {"Complementarity..", r.st_scompl, r.st_compl}, {"Overall NLP error..", r.st_skkt, r.st_kkt}};
      for( auto& q : T )
      {
         double v[2] = {0, 0};
         PBT_CHECK(c, find(q.key, v, 2), "summary-missing", "summary line '%s' missing at print level %d", q.key, level);
         PBT_CHECK(c, eqr(v[0], q.s, 1e-15) && eqr(v[1], q.u, 1e-15), "summary", "summary line '%s' says %.17g %.17g, statistics %.17g %.17g", q.key, v[0], v[1], q.s, q.u);
      }
      double v;
      PBT_CHECK(c, find("Number of Iterations..", &v, 1) && v == r.iter_count, "summary-iter", "summary says %g iterations, statistics %d", v, r.iter_count);
      struct { const char* key; int a; } N[] = {{"Number of objective function evaluations", r.ev_f}, {"Number of objective gradient evaluations", r.ev_g}, {"Number of Lagrangian Hessian evaluations", r.ev_h}};
      for( auto& q : N )
      {
         PBT_CHECK(c, find(q.key, &v, 1), "summary-missing", "'%s' missing", q.key);
         PBT_CHECK(c, v == q.a, "summary-evals", "log says %s = %g, statistics %d", q.key, v, q.a);
      }
      double v2;
      PBT_CHECK(c, find("Number of equality constraint evaluations", &v, 1) && find("Number of inequality constraint evaluations", &v2, 1) && std::max(v, v2) == r.ev_c, "summary-evals", "log says %g/%g constraint evaluations, statistics %d", v, v2, r.ev_c);
      PBT_CHECK(c, find("Number of equality constraint Jacobian evaluations", &v, 1) && find("Number of inequality constraint Jacobian evaluations", &v2, 1) && std::max(v, v2) == r.ev_j, "summary-evals", "log says %g/%g Jacobian evaluations, statistics %d", v, v2, r.ev_j);
      c.label("summary compared");
   }
   else if( level < 3 )
      PBT_CHECK(c, text.find("Number of Iterations....") == std::string::npos, "summary-level", "summary printed at level %d", level);
   // problem statistics
   if( level >= 5 && !r.iters.empty() && a.o.str("dependency_detector", "none") == "none" && (a.o.str("fixed_variable_treatment", "make_parameter").compare(0, 14, "make_parameter") == 0 || a.p.nfixed() == 0) )
   {
      const Problem& p = a.p;
      int nb = 0, nl = 0, nlu = 0, nu = 0, nf = 0, eq = 0, in = 0, il = 0, ilu = 0, iu = 0;
      for( int i = 0; i < p.n; ++i )
      {
         if( p.fixed(i) )
            continue;
         ++nf;
         bool l = p.xl[i] > -1e19, u = p.xu[i] < 1e19;
         nl += l && !u;
         nlu += l && u;
         nu += !l && u;
         nb += l || u;
      }
      for( int j = 0; j < p.m; ++j )
      {
         if( p.gl[j] == p.gu[j] )
         {
            ++eq;
            continue;
         }
         ++in;
         bool l = p.gl[j] > -1e19, u = p.gu[j] < 1e19;
         il += l && !u;
         ilu += l && u;
         iu += !l && u;
      }
      struct { const char* key; int v; } S[] = {
         {"Total number of variables", nf}, {"                     variables with only lower bounds", nl}, {"                variables with lower and upper bounds", nlu}, {"                     variables with only upper bounds", nu},
         {"Total number of equality constraints", eq}, {"Total number of inequality constraints", in}, {"        inequality constraints with only lower bounds", il}, {"   inequality constraints with lower and upper bounds", ilu},
         {"        inequality constraints with only upper bounds", iu}};
      bool square = nf == eq && eq > 0;
      for( auto& q : S )
      {
         bool found = false;
         for( auto& l : L )
            if( l.compare(0, strlen(q.key), q.key) == 0 )
            {
               size_t z = l.find(':');
               int v = z == std::string::npos ? -1 : atoi(l.c_str() + z + 1);
               PBT_CHECK(c, v == q.v, "problem-stats", "log says '%s', actual number is %d", l.c_str(), q.v);
               found = true;
            }
         PBT_CHECK(c, found || square, "problem-stats", "line '%s' missing", q.key);
      }
   }
}
static void f_log(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~AF_DT, c.src.flip(0.3) ? 0.2 : 0.05);
   tune(c, a);
   int level = c.src.weighted({1, 6}) ? 5 : 0;
   if( c.src.flip(0.4) )
   {
      static const int lv[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12};
      level = lv[c.src.below(11)];
   }
   int freq = c.src.flip(0.2) ? c.src.integer(1, 5) : 1;
   bool info = c.src.flip(0.3), internal = c.src.flip(0.5);
   std::string fn = pbt::scratch() + pbt::fmt("/log%d", (int)getpid());
   unlink(fn.c_str());
   a.o.S("inf_pr_output", internal ? "internal" : "original");
   if( freq != 1 )
      a.o.I("print_frequency_iter", freq);
   if( info )
      a.o.S("print_info_string", "yes");
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   bool onlysum = (a.p.nfixed() > 0 && (ft == "make_constraint" || ft == "relax_bounds")) || a.o.str("dependency_detector", "none") != "none" || a.o.str("replace_bounds", "no") == "yes";
   if( a.o.str("print_level", "") != "" )
      c.discard();
   bool append = c.src.flip(0.2), second = c.src.flip(0.2);
   int level2 = second ? c.src.integer(0, 6) : 0;
   std::string before;
   if( append )
   {
      before = "earlier content\n1 2 3\n";
      std::ofstream(fn.c_str()) << before;
   }
   c.desc << a.show() << " level " << level << (append ? " append" : "") << (second ? pbt::fmt(" second journal level %d", level2) : "") << "\n";
   SmartPtr<RecTNLP> t = a.make();
   Run R;
   hook(c, a, *t, R);
   SmartPtr<TNLP> keep = GetRawPtr(t);
   std::ostringstream other;
   {
      SmartPtr<IpoptApplication> app = new IpoptApplication(false);
      a.o.apply(*app->Options());
      app->Options()->SetIntegerValue("print_level", 0);
      app->Options()->SetStringValue("output_file", fn);
      app->Options()->SetIntegerValue("file_print_level", level);
      if( append )
         app->Options()->SetStringValue("file_append", "yes");
      if( second )
      {
         SmartPtr<StreamJournal> j = new StreamJournal("other", (EJournalLevel)level2);
         j->SetOutputStream(&other);
         // Initialize() resets nothing but the console
         app->Jnlst()->AddJournal(GetRawPtr(j));
      }
      ApplicationReturnStatus st = app->Initialize("");
      PBT_CHECK(c, st == Solve_Succeeded, "initialize", "Initialize: %d", (int)st);
      t->out.app = app->OptimizeTNLP(keep);
      grab_stats(*app, t->out);
      R.r = t->out;
   }
   std::string text = slurp(fn);
   unlink(fn.c_str());
   c.desc << " -> " << statname(R.r.app) << " after " << R.r.iters.size() << " reports\n";
   c.label(statname(R.r.app));
   if( c.verbose )
      printf("%s", text.c_str());
   c.label(pbt::fmt("level %d", level));
   c.nontrivial = level >= 3;
   if( append )
   {
      PBT_CHECK(c, text.compare(0, before.size(), before) == 0, "append", "file_append=yes lost the previous content");
      text = text.substr(before.size());
   }
   check_log(c, a, R, text, level, freq, info, internal, onlysum);
   if( second )
      check_log(c, a, R, other.str(), level2, freq, info, internal, onlysum);
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P16", "stats: the run ended with a status that hands back a point; log: printed at a level that includes the summary",
      {{"stats", f_stats, 14000, 1000000}, {"log", f_log, 7000, 500000}}
   };
   return pbt::run_main(argc, argv, k);
}
