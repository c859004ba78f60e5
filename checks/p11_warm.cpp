// P11: starting points, warm start and re-optimization.
#include "anycase.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpIteratesVector.hpp"
#include <algorithm>
#include <cstring>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static Vec flat(const Vector& v)
{
   const DenseVector& d = dynamic_cast<const DenseVector&>(v);
   return d.Dim() ? Vec(d.ExpandedValues(), d.ExpandedValues() + d.Dim()) : Vec();
}
class WTNLP: public RecTNLP
{
public:
   bool have = false;
   long asked = 0;
   Vec w[8];
   WTNLP(const Problem& p_, const Pres& pr) : RecTNLP(p_, pr) { }
   bool get_warm_start_iterate(IteratesVector& it) override
   {
      asked++;
      if( !have )
         return false;
      for( int k = 0; k < 8; ++k )
      {
         DenseVector& d = dynamic_cast<DenseVector&>(*it.GetCompNonConst(k));
         if( d.Dim() != (Index)w[k].size() )
            return false;
         if( d.Dim() )
            d.SetValues(w[k].data());
      }
      return true;
   }
};
static bool sameiter(const IterInfo& a, const IterInfo& b)
{
   double u[9] = {a.obj, a.inf_pr, a.inf_du, a.mu, a.d_norm, a.reg, a.alpha_du, a.alpha_pr, (double)a.ls};
   double v[9] = {b.obj, b.inf_pr, b.inf_du, b.mu, b.d_norm, b.reg, b.alpha_du, b.alpha_pr, (double)b.ls};
   return a.mode == b.mode && a.iter == b.iter && memcmp(u, v, sizeof u) == 0;
}
static void compare(Ctx& c, const char* what, int r, RecTNLP& a, RecTNLP& b, bool trace)
{
   PBT_CHECK(c, a.out.app == b.out.app, "status", "%s, solve %d: %s, fresh object %s", what, r, statname(a.out.app), statname(b.out.app));
   if( trace )
      for( size_t k = 0; k < std::min(a.trace.size(), b.trace.size()); ++k )
         PBT_CHECK(c, a.trace[k].kind == b.trace[k].kind && eqbits(a.trace[k].x, b.trace[k].x) && eqbits(a.trace[k].lam, b.trace[k].lam), "calls", "%s, solve %d: call %d is %s(%s), fresh object %s(%s)", what, r, (int)k,
                   kindname[a.trace[k].kind], vs(a.trace[k].x).c_str(), kindname[b.trace[k].kind], vs(b.trace[k].x).c_str());
   for( size_t k = 0; k < std::min(a.out.iters.size(), b.out.iters.size()); ++k )
      PBT_CHECK(c, sameiter(a.out.iters[k], b.out.iters[k]), "reports", "%s, solve %d: iteration report %d differs from that of a fresh object (obj %.17g %.17g inf_pr %g %g mu %g %g)", what, r, (int)k, a.out.iters[k].obj,
                b.out.iters[k].obj, a.out.iters[k].inf_pr, b.out.iters[k].inf_pr, a.out.iters[k].mu, b.out.iters[k].mu);
   PBT_CHECK(c, a.out.iters.size() == b.out.iters.size(), "reports", "%s, solve %d: %d iteration reports, fresh object %d", what, r, (int)a.out.iters.size(), (int)b.out.iters.size());
   PBT_CHECK(c, a.out.nfinal == b.out.nfinal && a.out.fin == b.out.fin, "final", "%s, solve %d: finalize_solution %d times with %d, fresh object %d times with %d", what, r, a.out.nfinal, a.out.fin, b.out.nfinal, b.out.fin);
   PBT_CHECK(c, eqbits(a.out.x, b.out.x) && eqbits(a.out.lam, b.out.lam) && eqbits(a.out.zl, b.out.zl) && eqbits(a.out.zu, b.out.zu) && eqbits(a.out.g, b.out.g), "solution", "%s, solve %d: solution %s lam %s, fresh object %s lam %s",
             what, r, vs(a.out.x).c_str(), vs(a.out.lam).c_str(), vs(b.out.x).c_str(), vs(b.out.lam).c_str());
   PBT_CHECK(c, a.out.have_stats == b.out.have_stats, "stats", "%s, solve %d: statistics %d, fresh object %d", what, r, a.out.have_stats, b.out.have_stats);
   if( a.out.have_stats )
   {
      PBT_CHECK(c, a.out.iter_count == b.out.iter_count && memcmp(&a.out.st_obj, &b.out.st_obj, 8) == 0 && memcmp(&a.out.st_kkt, &b.out.st_kkt, 8) == 0, "stats", "%s, solve %d: iterations %d, obj %g, error %g; fresh object %d %g %g", what, r,
                a.out.iter_count, a.out.st_obj, a.out.st_kkt, b.out.iter_count, b.out.st_obj, b.out.st_kkt);
      PBT_CHECK(c, a.out.ev_f == b.out.ev_f && a.out.ev_c == b.out.ev_c && a.out.ev_g == b.out.ev_g && a.out.ev_j == b.out.ev_j && a.out.ev_h == b.out.ev_h, "stats", "%s, solve %d: evaluations %d %d %d %d %d, fresh object %d %d %d %d %d", what, r,
                a.out.ev_f, a.out.ev_c, a.out.ev_g, a.out.ev_j, a.out.ev_h, b.out.ev_f, b.out.ev_c, b.out.ev_g, b.out.ev_j, b.out.ev_h);
   }
}
static void reset(RecTNLP& t)
{
   bool js = t.out.calls[K_JACS] > 0, hs = t.out.calls[K_HESSS] > 0;
   t.out = Outcome();
   t.out.calls[K_JACS] = js;
   t.out.calls[K_HESSS] = hs;
   t.trace.clear();
   t.have_last = false;
   t.faulted = 0;
   for( int k = 0; k < K_COUNT; ++k )
      t.kindcount[k] = 0;
}
/** change values but not the sparsity pattern; keepshape: also not the kind of bounds and constraints */
static std::string mutate(pbt::Src& s, Problem& p, Vec& start, bool keepshape)
{
   std::string r;
   int k = s.integer(1, 3);
   for( int q = 0; q < k; ++q )
      switch( s.below(6) )
      {
         case 0:
         {
            for( double& d : start )
               d = s.nice(-3, 3);
            r += " start";
            break;
         }
         case 1:
         {
            Func& f = p.m > 0 && s.flip() ? p.g[s.below((size_t)p.m)] : p.f;
            for( Term& t : f.t )
               t.c *= s.flip() ? 1 : s.logreal(0.5, 2);
            f.c0 += s.nice(-1, 1);
            r += " coefficients";
            break;
         }
         case 2:
         {
            int i = (int)s.below((size_t)p.n);
            double sh = s.nice(-1, 1);
            if( p.xl[i] > -1e19 )
               p.xl[i] += sh;
            if( p.xu[i] < 1e19 )
               p.xu[i] += sh;
            r += " shift-bounds";
            break;
         }
         case 3:
         {
            if( p.m == 0 )
               break;
            int j = (int)s.below((size_t)p.m);
            double sh = s.nice(-1, 1);
            if( p.gl[j] > -1e19 )
               p.gl[j] += sh;
            if( p.gu[j] < 1e19 )
               p.gu[j] += sh;
            r += " shift-sides";
            break;
         }
         case 4:
         {
            if( keepshape )
               break;
            int i = (int)s.below((size_t)p.n);
            switch( s.below(4) )
            {
               case 0: p.xl[i] = -INF; break;
               case 1: p.xu[i] = INF; break;
               case 2: p.xl[i] = p.xu[i] = s.nice(-1, 1); break;
               case 3: p.xl[i] = -s.integer(1, 3); p.xu[i] = s.integer(1, 3); break;
            }
            r += " bounds";
            break;
         }
         case 5:
         {
            if( keepshape || p.m == 0 )
               break;
            int j = (int)s.below((size_t)p.m);
            switch( s.below(4) )
            {
               case 0: p.gl[j] = -INF; if( p.gu[j] >= 1e19 ) p.gu[j] = 2; break;
               case 1: p.gu[j] = INF; if( p.gl[j] <= -1e19 ) p.gl[j] = -2; break;
               case 2: p.gl[j] = p.gu[j] = s.nice(-1, 1); break;
               case 3: p.gl[j] = -s.integer(1, 3); p.gu[j] = s.integer(1, 3); break;
            }
            r += " sides";
            break;
         }
      }
   p.known = false;
   return r;
}

static void reopt(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_ALL, 0.06);
   bool replace = s.flip(0.04);
   if( replace )
      a.o.S("replace_bounds", "yes");
   c.desc << a.show();
   SmartPtr<IpoptApplication> app = new IpoptApplication(getenv("NLP_PRINT") != nullptr);
   app->RethrowNonIpoptException(false);
   Opts o = a.o;
   o.apply(*app->Options());
   if( getenv("NLP_PRINT") )
      app->Options()->SetIntegerValue("print_level", atoi(getenv("NLP_PRINT")));
   if( app->Initialize("") != Solve_Succeeded )
      c.discard();
   SmartPtr<RecTNLP> t = a.make();
   t->keep_trace = true;
   if( t->start_x.empty() )
      t->start_x = a.p.x0;
   int rounds = s.weighted({0, 0, 4, 2, 1});
   bool canre = false, samestruct = false, dirty = false;
   for( int r = 0; r < rounds; ++r )
   {
      bool re = canre && s.flip(0.7);
      bool same = false;
      if( r > 0 )
      {
         // same structure can only be asked for after a successful set-up of the very same shape
         same = re && t->out.iters.size() > 1 && !a.faults && !a.p.nfixed() && o.str("dependency_detector", "none") == "none" && s.flip(0.25);
         // automatic scaling factors are kept with the structure
         bool keepscale = same && o.str("nlp_scaling_method", "gradient-based") != "none" && o.str("nlp_scaling_method", "") != "user-scaling";
         std::string ch;
         if( same && keepscale && dirty )
            same = keepscale = false;
         if( !keepscale && s.flip(0.7) )
            ch = mutate(s, a.p, t->start_x, same);
         dirty = same && (dirty || !ch.empty());
         if( same )
            for( int i = 0; i < a.p.n; ++i )
               if( a.p.fixed(i) )
                  c.discard();
         if( s.flip(0.5) )
         {
            static const Opt q[] = {{'n', "tol", "", 1e-5, 0}, {'n', "tol", "", 1e-8, 0}, {'i', "max_iter", "", 0, 4}, {'i', "max_iter", "", 0, 100}, {'n', "mu_init", "", 1e-3, 0}, {'n', "bound_push", "", 1e-4, 0}, {'n', "bound_frac", "", 1e-4, 0},
               {'s', "warm_start_init_point", "yes", 0, 0}, {'s', "warm_start_init_point", "no", 0, 0}, {'n', "bound_relax_factor", "", 0, 0}, {'n', "bound_relax_factor", "", 1e-6, 0}, {'i', "acceptable_iter", "", 0, 3}, {'n', "nlp_scaling_max_gradient", "", 10, 0},
               {'s', "fixed_variable_treatment", "make_constraint", 0, 0}, {'s', "fixed_variable_treatment", "make_parameter", 0, 0}, {'i', "watchdog_shortened_iter_trigger", "", 0, 2}, {'n', "obj_scaling_factor", "", 2, 0}, {'i', "max_soc", "", 0, 0},
               {'s', "jac_c_constant", "no", 0, 0},
               // below: only effective when the algorithm is built
               {'s', "mu_strategy", "adaptive", 0, 0}, {'s', "mu_strategy", "monotone", 0, 0}, {'s', "nlp_scaling_method", "none", 0, 0}, {'s', "hessian_approximation", "limited-memory", 0, 0}, {'s', "accept_every_trial_step", "yes", 0, 0}};
            int nre = 19, nall = sizeof q / sizeof q[0];
            const Opt& z = q[s.below((size_t)((re || same) ? nre : nall))];
            if( !(same && (z.name == "fixed_variable_treatment" || z.name == "nlp_scaling_max_gradient" || z.name == "obj_scaling_factor")) )
            {
               o.v.push_back(z);
               ch += " option " + z.name;
               Opts one;
               one.v.push_back(z);
               one.apply(*app->Options());
            }
         }
         if( same != samestruct )
         {
            app->Options()->SetStringValue("warm_start_same_structure", same ? "yes" : "no");
            samestruct = same;
         }
         c.desc << pbt::fmt(" solve %d: %s%s, changes:%s\n", r, re ? "ReOptimizeTNLP" : "OptimizeTNLP", same ? " same structure" : "", ch.c_str());
         if( s.flip(0.3) && app->Initialize("") != Solve_Succeeded )
            c.discard();
      }
      if( !re && r > 0 && s.flip() )
      {
         // another TNLP object
         SmartPtr<RecTNLP> t2 = a.make();
         t2->keep_trace = true;
         t2->start_x = t->start_x;
         t2->derivs_forbidden_h = t->derivs_forbidden_h;
         t = t2;
      }
      t->derivs_forbidden_h = false;   // hessian_approximation may have been changed
      reset(*t);
      ApplicationReturnStatus st;
      try
      {
         st = re ? app->ReOptimizeTNLP(GetRawPtr(t)) : app->OptimizeTNLP(GetRawPtr(t));
      }
      catch( IpoptException& e )
      {
         c.fail("exception", "solve %d: exception from %s: %s", r, re ? "ReOptimizeTNLP" : "OptimizeTNLP", e.Message().c_str());
      }
      t->out.app = st;
      grab_stats(*app, t->out);
      // twin
      SmartPtr<RecTNLP> f = a.make();
      f->keep_trace = true;
      f->derivs_forbidden_h = false;
      f->start_x = t->start_x;
      SmartPtr<IpoptApplication> fa = new IpoptApplication(getenv("NLP_PRINT") != nullptr);
      fa->RethrowNonIpoptException(false);
      o.apply(*fa->Options());
      if( getenv("NLP_PRINT") )
         fa->Options()->SetIntegerValue("print_level", atoi(getenv("NLP_PRINT")));
      fa->Initialize("");
      f->out.app = fa->OptimizeTNLP(GetRawPtr(f));
      grab_stats(*fa, f->out);
      c.label(std::string(re ? (same ? "same-" : "re-") : "opt-") + statname(st));
      compare(c, re ? (same ? "same structure" : "ReOptimize") : "Optimize", r, *t, *f, !same);
      if( r > 0 && t->out.iters.size() > 1 )
         c.nontrivial = true;
      canre = st != Invalid_Option && st != Unrecoverable_Exception && st != NonIpopt_Exception_Thrown && st != Invalid_Problem_Definition && st != Insufficient_Memory && st != Internal_Error && t->out.iters.size() > 0;
   }
}

// ------------------------------------------------------------------------------------------------- first iterate
static double push1(double x, double L, double U, double bp, double bf)
{
   bool l = L > -1e19, u = U < 1e19;
   if( l )
      x = std::max(x, L);
   if( u )
      x = std::min(x, U);
   double pl = bp * std::max(1., std::fabs(L)), pu = bp * std::max(1., std::fabs(U));
   if( l && u )
   {
      pl = std::min(pl, bf * (U - L));
      pu = std::min(pu, bf * (U - L));
   }
   if( l )
      x = std::max(x, L + pl);
   if( u )
      x = std::min(x, U - pu);
   return x;
}
static void start(Ctx& c)
{
   pbt::Src& s = c.src;
   GenCfg g;
   g.nmax = 6;
   g.mmax = 4;
   g.fixed = s.flip(0.2);
   Problem p = s.flip() ? gen_general(c, g) : gen_convex(c, g);
   int n = p.n, m = p.m;
   Opts o = base_opts();
   o.I("max_iter", 0);
   double brf = 0;
   if( s.flip(0.3) )
   {
      brf = s.flip() ? 1e-8 : 1e-4;
   }
   o.N("bound_relax_factor", brf);
   bool warm = s.flip(), entire = warm && s.flip(0.35);
   double bp, bf, sp, sf, zpush = 1e-3, ymax = 1e6, zinit = 1;
   auto val = [&](const char* name, double def, double lo, double hi)
   {
      if( !warm && s.flip(0.4) )
         return def;
      double v = s.flip(0.3) ? def : s.logreal(lo, hi);
      o.N(name, v);
      return v;
   };
   bool mubased = false, muset = false;
   double mu = 0.1;
   if( warm )
   {
      o.S("warm_start_init_point", "yes");
      bp = val("warm_start_bound_push", 1e-3, 1e-9, 1);
      bf = val("warm_start_bound_frac", 1e-3, 1e-9, 0.5);
      sp = val("warm_start_slack_bound_push", 1e-3, 1e-9, 1);
      sf = val("warm_start_slack_bound_frac", 1e-3, 1e-9, 0.5);
      zpush = val("warm_start_mult_bound_push", 1e-3, 1e-9, 1);
      ymax = s.flip(0.5) ? val("warm_start_mult_init_max", 1e6, 1e-2, 10) : 1e6;
      if( entire )
         o.S("warm_start_entire_iterate", "yes");
   }
   else
   {
      bool b1 = s.flip(0.6), b2 = s.flip(0.6), b3 = s.flip(0.3), b4 = s.flip(0.3);
      bp = bf = 1e-2;
      if( b1 )
         o.N("bound_push", bp = s.logreal(1e-8, 10));
      if( b2 )
         o.N("bound_frac", bf = s.logreal(1e-8, 0.5));
      sp = bp;      // "slack_bound_push": defaults to bound_push if only that is set
      sf = bf;
      if( b3 )
         o.N("slack_bound_push", sp = s.logreal(1e-8, 10));
      if( b4 )
         o.N("slack_bound_frac", sf = s.logreal(1e-8, 0.5));
      if( s.flip() )
         o.N("bound_mult_init_val", zinit = s.logreal(1e-3, 1e3));
      if( s.flip(0.3) )
      {
         mubased = true;
         o.S("bound_mult_init_method", "mu-based");
      }
      if( s.flip(0.3) )
      {
         muset = true;
         o.N("mu_init", mu = s.logreal(1e-5, 10));
      }
      ymax = 1e3;
      if( s.flip(0.4) )
         o.N("constr_mult_init_max", ymax = s.flip(0.3) ? 0. : s.logreal(1e-2, 1e3));
   }
   if( s.flip(0.3) )
      o.S("mu_strategy", "adaptive");
   // scaling by the user
   Vec dx(n, 1.), dg(m, 1.);
   double df = 1;
   SmartPtr<WTNLP> t = new WTNLP(p, plain_pres(p));
   if( s.flip(0.4) )
   {
      o.S("nlp_scaling_method", "user-scaling");
      df = s.logreal(0.1, 10);
      for( double& d : dx )
         d = s.logreal(0.1, 10);
      for( double& d : dg )
         d = s.logreal(0.1, 10);
      t->give_scaling = true;
      t->obj_scaling = df;
      t->use_x_scaling = t->use_g_scaling = true;
      t->x_scaling = dx;
      t->g_scaling = dg;
   }
   else
      o.S("nlp_scaling_method", "none");
   // starting point: inside, at and outside of bounds
   Vec x0(n), zl(n), zu(n), lam(m);
   for( int i = 0; i < n; ++i )
   {
      x0[i] = s.flip(0.2) && p.xl[i] > -1e19 ? p.xl[i] : s.flip(0.2) && p.xu[i] < 1e19 ? p.xu[i] : s.nice(-4, 4);
      if( s.flip(0.15) && p.xl[i] > -1e19 )
         x0[i] = p.xl[i] + s.logreal(1e-10, 1e-1);
      zl[i] = s.flip(0.2) ? 0 : std::fabs(s.nice(-12, 12));
      zu[i] = s.flip(0.2) ? s.logreal(1e-10, 1e-2) : std::fabs(s.nice(-12, 12));
   }
   for( int j = 0; j < m; ++j )
      lam[j] = s.nice(-12, 12);
   t->start_x = x0;
   t->start_zl = zl;
   t->start_zu = zu;
   t->start_lam = lam;
   // the algorithm's variables
   std::vector<int> fx, ce, ci;
   for( int i = 0; i < n; ++i )
      if( !p.fixed(i) )
         fx.push_back(i);
   for( int j = 0; j < m; ++j )
      (p.gl[j] == p.gu[j] ? ce : ci).push_back(j);
   if( fx.empty() || ce.size() > fx.size() )
      c.discard();
   auto lo = [&](double b)
   {
      return b > -1e19 ? (brf > 0 ? b - std::min(1e-4, brf * std::max(1., std::fabs(b))) : b) : b;
   };
   auto up = [&](double b)
   {
      return b < 1e19 ? (brf > 0 ? b + std::min(1e-4, brf * std::max(1., std::fabs(b))) : b) : b;
   };
   int nx = (int)fx.size(), nd = (int)ci.size(), nc = (int)ce.size();
   // bounds in scaled space; relaxation happens before the scaling
   Vec L(nx), U(nx), DL(nd), DU(nd);
   for( int k = 0; k < nx; ++k )
   {
      double l = lo(p.xl[fx[k]]), u = up(p.xu[fx[k]]);
      L[k] = l > -1e19 ? l * dx[fx[k]] : l;
      U[k] = u < 1e19 ? u * dx[fx[k]] : u;
   }
   for( int k = 0; k < nd; ++k )
   {
      double l = lo(p.gl[ci[k]]), u = up(p.gu[ci[k]]);
      DL[k] = l > -1e19 ? l * dg[ci[k]] : l;
      DU[k] = u < 1e19 ? u * dg[ci[k]] : u;
   }
   std::vector<int> xL, xU, dL, dU;
   for( int k = 0; k < nx; ++k )
   {
      if( L[k] > -1e19 ) xL.push_back(k);
      if( U[k] < 1e19 ) xU.push_back(k);
   }
   for( int k = 0; k < nd; ++k )
   {
      if( DL[k] > -1e19 ) dL.push_back(k);
      if( DU[k] < 1e19 ) dU.push_back(k);
   }
   // expected first iterate
   Vec ex[8];
   auto gval = [&](const Vec & xs)
   {
      Vec xf(n);
      for( int i = 0; i < n; ++i )
         xf[i] = p.xl[i];
      for( int k = 0; k < nx; ++k )
         xf[fx[k]] = xs[k] / dx[fx[k]];
      return xf;
   };
   Vec xs(nx), ss(nd);
   for( int k = 0; k < nx; ++k )
      xs[k] = x0[fx[k]] * dx[fx[k]];
   if( entire )
   {
      t->have = s.flip(0.85);
      if( t->have )
      {
         for( int k = 0; k < nd; ++k )
            ss[k] = s.nice(-4, 4);
         t->w[0] = xs;
         t->w[1] = ss;
         for( int q = 2; q < 8; ++q )
         {
            static const int dummy = 0;
            (void)dummy;
            size_t dim = q == 2 ? (size_t)nc : q == 3 ? (size_t)nd : q == 4 ? xL.size() : q == 5 ? xU.size() : q == 6 ? dL.size() : dU.size();
            for( size_t k = 0; k < dim; ++k )
               t->w[q].push_back(q < 4 ? s.nice(-12, 12) : std::fabs(s.nice(-12, 12)));
         }
      }
   }
   bool used = entire && t->have;
   Vec gx(m);
   if( !used )
   {
      Vec xp = xs;
      if( !warm )
         for( int k = 0; k < nx; ++k )
            xp[k] = push1(xs[k], L[k], U[k], bp, bf);
      gx = p.geval(gval(xp).data());
      for( int k = 0; k < nd; ++k )
         ss[k] = gx[ci[k]] * dg[ci[k]];
   }
   for( int k = 0; k < nx; ++k )
      ex[0].push_back(push1(xs[k], L[k], U[k], bp, bf));
   for( int k = 0; k < nd; ++k )
      ex[1].push_back(push1(ss[k], DL[k], DU[k], sp, sf));
   auto clip = [&](double v)
   {
      return ymax > 0 ? std::max(-ymax, std::min(ymax, v)) : v;
   };
   auto zc = [&](double v)
   {
      return std::max(zpush, ymax > 0 ? std::min(ymax, v) : v);
   };
   if( warm )
   {
      if( used )
      {
         for( int q = 2; q < 4; ++q )
            for( double v : t->w[q] )
               ex[q].push_back(clip(v));
         for( int q = 4; q < 8; ++q )
            for( double v : t->w[q] )
               ex[q].push_back(zc(v));
      }
      else
      {
         for( int j : ce )
            ex[2].push_back(clip(lam[j] * df / dg[j]));
         for( int j : ci )
            ex[3].push_back(clip(lam[j] * df / dg[j]));
         for( int k : xL )
            ex[4].push_back(zc(zl[fx[k]] * df / dx[fx[k]]));
         for( int k : xU )
            ex[5].push_back(zc(zu[fx[k]] * df / dx[fx[k]]));
         for( int k : dL )
            ex[6].push_back(std::max(zpush, -ex[3][k]));
         for( int k : dU )
            ex[7].push_back(std::max(zpush, ex[3][k]));
      }
   }
   else
   {
      for( int k : xL )
         ex[4].push_back(mubased ? mu / (ex[0][k] - L[k]) : zinit);
      for( int k : xU )
         ex[5].push_back(mubased ? mu / (U[k] - ex[0][k]) : zinit);
      for( int k : dL )
         ex[6].push_back(mubased ? mu / (ex[1][k] - DL[k]) : zinit);
      for( int k : dU )
         ex[7].push_back(mubased ? mu / (DU[k] - ex[1][k]) : zinit);
   }
   c.desc << p.show() << o.show() << pbt::fmt("\n start x %s lam %s zl %s zu %s df %g dx %s dg %s\n", vs(x0).c_str(), vs(lam).c_str(), vs(zl).c_str(), vs(zu).c_str(), df, vs(dx).c_str(), vs(dg).c_str());
   (void)muset;
   Vec got[8];
   t->on_iter = [&](RecTNLP & r, const IterInfo&, const IpoptData * d, IpoptCalculatedQuantities*)
   {
      if( r.out.iters.size() == 1 )
      {
         SmartPtr<const IteratesVector> it = d->curr();
         for( int q = 0; q < 8; ++q )
            got[q] = flat(*it->GetComp(q));
      }
      return true;
   };
   Outcome out = solve(GetRawPtr(t), o);
   if( out.iters.empty() )
   {
      c.label(std::string("none-") + statname(out.app));
      // slacks or functions may overflow at the point asked for
      c.discard();
   }
   if( used )
      PBT_CHECK(c, t->asked > 0, "iterate-not-asked", "get_warm_start_iterate has not been called");
   c.nontrivial = true;
   c.label(used ? "entire" : warm ? "warm" : mubased ? "mu-based" : "cold");
   static const char* nm[8] = {"x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U"};
   for( int q = 0; q < 8; ++q )
   {
      if( !warm && (q == 2 || q == 3) )
         continue;
      PBT_CHECK(c, got[q].size() == ex[q].size(), "dimension", "%s has %d elements, expected %d", nm[q], (int)got[q].size(), (int)ex[q].size());
      for( size_t k = 0; k < ex[q].size(); ++k )
      {
         double e = ex[q][k], mag = std::fabs(e);
         if( q == 0 )
            mag += std::fabs(L[k] > -1e19 ? L[k] : 0) + std::fabs(U[k] < 1e19 ? U[k] : 0);
         if( q == 1 )
            mag += std::fabs(DL[k] > -1e19 ? DL[k] : 0) + std::fabs(DU[k] < 1e19 ? DU[k] : 0) + std::fabs(ss[k]);
         double tol = 1e-12 * mag + 1e-13;
         if( mubased && q >= 4 )
            tol = 1e-12 * mag + mag * mag / mu * 1e-13 * (1 + 20);   // slacks are differences
         PBT_CHECK(c, std::fabs(got[q][k] - e) <= tol, (std::string("start-") + nm[q]).c_str(), "first iterate: %s[%d]=%.17g, expected %.17g (options give %s start)", nm[q], (int)k, got[q][k], e, used ? "entire" : warm ? "warm" : "cold");
      }
   }
   if( !warm )
   {
      // least-square estimate of the constraint multipliers, or zero
      bool zero = true;
      double big = 0;
      for( int q = 2; q < 4; ++q )
         for( double v : got[q] )
         {
            zero = zero && v == 0;
            big = std::max(big, std::fabs(v));
         }
      PBT_CHECK(c, big <= ymax, "mult-init-max", "initial multiplier %g exceeds constr_mult_init_max=%g", big, ymax);
      if( nc == nx || ymax == 0 )
         PBT_CHECK(c, zero, "mult-init-zero", "initial multipliers not zero (square problem or constr_mult_init_max=0)");
      if( !zero )
      {
         c.label("least-square");
         Vec xf = gval(got[0]);
         Vec rx(n, 0.), tot(nx), rs(nd, 0.);
         p.f.grad(xf.data(), rx.data(), df);
         std::vector<Vec> J(m, Vec(n, 0.));
         for( int j = 0; j < m; ++j )
            p.g[j].grad(xf.data(), J[j].data(), dg[j]);
         for( int k = 0; k < nc; ++k )
            for( int i = 0; i < n; ++i )
               rx[i] += got[2][k] * J[ce[k]][i];
         for( int k = 0; k < nd; ++k )
            for( int i = 0; i < n; ++i )
               rx[i] += got[3][k] * J[ci[k]][i];
         double mag = 1 + big;
         for( int k = 0; k < nx; ++k )
         {
            tot[k] = rx[fx[k]] / dx[fx[k]];
            mag = std::max(mag, std::fabs(tot[k]));
         }
         for( size_t k = 0; k < xL.size(); ++k )
            tot[xL[k]] -= got[4][k];
         for( size_t k = 0; k < xU.size(); ++k )
            tot[xU[k]] += got[5][k];
         for( int k = 0; k < nd; ++k )
            rs[k] = -got[3][k];
         for( size_t k = 0; k < dL.size(); ++k )
            rs[dL[k]] -= got[6][k];
         for( size_t k = 0; k < dU.size(); ++k )
            rs[dU[k]] += got[7][k];
         for( int q = 4; q < 8; ++q )
            for( double v : got[q] )
               mag = std::max(mag, std::fabs(v));
         for( int j = 0; j < m; ++j )
         {
            double d = 0, jm = 1;
            for( int k = 0; k < nx; ++k )
            {
               double v = J[j][fx[k]] / dx[fx[k]];
               d += v * tot[k];
               jm = std::max(jm, std::fabs(v));
               mag = std::max(mag, std::fabs(v) * big);
            }
            for( int k = 0; k < nd; ++k )
               if( ci[k] == j )
                  d -= rs[k];
            PBT_CHECK(c, std::fabs(d) <= 1e-5 * jm * jm * mag * (n + m), "least-square", "initial multipliers are not a least-square estimate: row %d of J times dual infeasibility is %g (y_c %s y_d %s)", j, d, vs(got[2]).c_str(),
                      vs(got[3]).c_str());
         }
      }
   }
}

// -------------------------------------------------------------------------------------------- warm start at a solution
static void resolve(Ctx& c)
{
   pbt::Src& s = c.src;
   GenCfg g;
   g.nmax = 7;
   g.mmax = 4;
   Problem p = gen_convex(c, g);
   if( !p.known )
      c.discard();
   Opts o = base_opts();
   if( s.flip(0.3) )
      o.S("mu_strategy", "adaptive");
   if( s.flip(0.3) )
      o.S("nlp_scaling_method", "none");
   o.I("max_iter", 200);
   SmartPtr<RecTNLP> t = new RecTNLP(p, gen_pres(c, p));
   c.desc << p.show() << o.show();
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   o.apply(*app->Options());
   app->Initialize("");
   t->out.app = app->OptimizeTNLP(GetRawPtr(t));
   if( t->out.app != Solve_Succeeded )
      c.discard();
   Outcome cold = t->out;
   double push = s.flip() ? 1e-9 : 1e-7;
   Opts w;
   w.S("warm_start_init_point", "yes").N("warm_start_bound_push", push).N("warm_start_bound_frac", push).N("warm_start_slack_bound_push", push).N("warm_start_slack_bound_frac", push).N("warm_start_mult_bound_push", push);
   w.N("mu_init", s.flip() ? 1e-8 : 1e-6);
   bool re = s.flip();
   c.desc << w.show() << (re ? " ReOptimize\n" : " fresh application\n");
   t->start_x = cold.x;
   t->start_lam = cold.lam;
   t->start_zl = cold.zl;
   t->start_zu = cold.zu;
   for( double& d : t->start_zl )
      d = std::max(d, 0.);
   for( double& d : t->start_zu )
      d = std::max(d, 0.);
   reset(*t);
   if( re )
   {
      w.apply(*app->Options());
      t->out.app = app->ReOptimizeTNLP(GetRawPtr(t));
   }
   else
   {
      SmartPtr<IpoptApplication> a2 = new IpoptApplication(false);
      o.apply(*a2->Options());
      w.apply(*a2->Options());
      a2->Initialize("");
      t->out.app = a2->OptimizeTNLP(GetRawPtr(t));
   }
   Outcome& h = t->out;
   c.nontrivial = cold.iters.size() > 3;
   c.label(pbt::fmt("cold-%d-warm-%d", (int)std::min<size_t>(cold.iters.size() / 5 * 5, 30), (int)h.iters.size() - 1));
   PBT_CHECK(c, h.okish(), "warm-status", "warm start from the solution ends with %s", statname(h.app));
   double cx, cy;
   known_cond(p, cx, cy);
   double ex = maxdiff(h.x, cold.x), tolx = 1e-5 + 1e-6 * cx * (1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu));
   PBT_CHECK(c, ex <= tolx, "warm-solution", "warm started solution %s differs from the one it started from %s by %g", vs(h.x).c_str(), vs(cold.x).c_str(), ex);
   PBT_CHECK(c, (int)h.iters.size() <= std::max(8, (int)cold.iters.size() + 2), "warm-iterations", "warm start from the solution needs %d iterations, cold start %d", (int)h.iters.size() - 1, (int)cold.iters.size() - 1);
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P11", "a re-optimization made iterations / the first iterate was observed / the cold solve needed more than 3 iterations", {{"reopt", reopt, 2500, 80000}, {"start", start, 4000, 200000}, {"resolve", resolve, 600, 40000}}};
   return pbt::run_main(argc, argv, k);
}
