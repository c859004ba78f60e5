// P14: every iteration report obeys the invariants of the interior point method.
#include "anycase.hpp"
#include "IpCompoundVector.hpp"
#include "IpDenseVector.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpOrigIpoptNLP.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

typedef SmartPtr<const Vector> V;
static void flat(const Vector& v, Vec& out)
{
   const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v);
   if( cv )
   {
      for( Index i = 0; i < cv->NComps(); ++i )
         flat(*cv->GetComp(i), out);
      return;
   }
   const DenseVector& d = dynamic_cast<const DenseVector&>(v);
   for( Index i = 0; i < d.Dim(); ++i )
      out.push_back(d.IsHomogeneous() ? d.Scalar() : d.Values()[i]);
}
static Vec flat(const V& v)
{
   Vec r;
   flat(*v, r);
   return r;
}
struct Snap
{
   bool resto = false, any = false;
   char ch = ' ';
   Vec x, s, z[4], sl[4];
   IterInfo in;
   double tau = 0;
   bool has_delta = false;
};
static double amax(const Vec& v)
{
   double r = 0;
   for( double d : v )
      r = std::max(r, std::fabs(d));
   return r;
}
static bool fin(const Vec& v)
{
   for( double d : v )
      if( !std::isfinite(d) || std::fabs(d) > 1e100 )
         return false;
   return true;
}
static double amp(const Func& f, const double* x)
{
   double r = std::fabs(f.c0);
   for( auto& q : f.t )
   {
      Func one;
      one.t.push_back(q);
      r += std::fabs(one.val(x));
   }
   return r;
}
static const char* ZN[4] = {"z_L", "z_U", "v_L", "v_U"};
struct Mon
{
   Ctx* c;
   const Any* a;
   Snap prev;
   int count = 0, restos = 0, regs = 0, steps = 0, ftb = 0;
   double mu_last_reg = -1;
   bool was_resto = false;
   double sm = 1.82e-12, hist = 0;
   void report(RecTNLP& t, const IterInfo& in, const IpoptData* d, IpoptCalculatedQuantities* q);
};
void Mon::report(RecTNLP& t, const IterInfo& in, const IpoptData* d, IpoptCalculatedQuantities* q)
{
   Ctx& c = *this->c;
   const Problem& p = a->p;
   const Opts& o = a->o;
   bool resto = in.mode == RestorationPhaseMode;
   const char* md = resto ? "restoration" : "regular";
   char ch = d->info_alpha_primal_char();
   // when the restoration phase is done, its last point is reported again as a point of the regular mode
   bool again = !resto && was_resto;
   was_resto = resto;
   if( again )
      --count;
   PBT_CHECK(c, in.iter == count, "iter", "report number %d has iteration counter %d instead of %d (%s)", restos + regs, in.iter, count, md);
   PBT_CHECK(c, d->iter_count() == in.iter, "iter", "report %d: counter in the data is %d", in.iter, (int)d->iter_count());
   ++count;
   (resto ? restos : regs)++;
   PBT_CHECK(c, in.reg >= 0. && in.ls >= 0 && !(in.d_norm < 0.), "sign", "iteration %d (%s): regularization %g, %d trials, step norm %g", in.iter, md, in.reg, in.ls, in.d_norm);
   PBT_CHECK(c, in.inf_pr >= 0. || std::isnan(in.inf_pr), "sign", "iteration %d: inf_pr %g", in.iter, in.inf_pr);
   if( in.iter == 0 )
      PBT_CHECK(c, in.alpha_pr == 0. && in.alpha_du == 0. && in.ls == 0 && in.d_norm == 0., "first", "iteration 0 reports step sizes %g %g, %d trials, step norm %g", in.alpha_pr, in.alpha_du, in.ls, in.d_norm);
   PBT_CHECK(c, in.alpha_pr >= 0. && in.alpha_pr <= 1. && in.alpha_du >= 0. && in.alpha_du <= 1., "alpha", "iteration %d (%s): step sizes %.17g %.17g", in.iter, md, in.alpha_pr, in.alpha_du);
   bool monotone = o.str("mu_strategy", o.str("hessian_approximation", "exact") == "exact" ? "monotone" : "adaptive") == "monotone" && o.str("mehrotra_algorithm", "no") == "no";
   if( resto )
      for( auto& q : o.v )
         monotone = monotone && q.name.compare(0, 6, "resto.") != 0;
   Snap s;
   s.any = true;
   s.resto = resto;
   s.ch = ch;
   s.in = in;
   s.tau = d->curr_tau();
   s.x = flat(d->curr()->x());
   s.s = flat(d->curr()->s());
   s.z[0] = flat(d->curr()->z_L());
   s.z[1] = flat(d->curr()->z_U());
   s.z[2] = flat(d->curr()->v_L());
   s.z[3] = flat(d->curr()->v_U());
   s.sl[0] = flat(q->curr_slack_x_L());
   s.sl[1] = flat(q->curr_slack_x_U());
   s.sl[2] = flat(q->curr_slack_s_L());
   s.sl[3] = flat(q->curr_slack_s_U());
   if( c.verbose )
      printf("it %d %s %c mu %g tau %.17g x %s s %s z %s %s v %s %s slacks %s %s %s %s\n", in.iter, md, ch, in.mu, s.tau, vs(s.x).c_str(), vs(s.s).c_str(), vs(s.z[0]).c_str(), vs(s.z[1]).c_str(), vs(s.z[2]).c_str(), vs(s.z[3]).c_str(), vs(s.sl[0]).c_str(), vs(s.sl[1]).c_str(), vs(s.sl[2]).c_str(), vs(s.sl[3]).c_str());
   bool ok = fin(s.x) && fin(s.s);
   for( int k = 0; k < 4; ++k )
      ok = ok && fin(s.z[k]) && fin(s.sl[k]);
   if( !ok )
   {
      c.label("non-finite iterate");
      prev = Snap();
      return;
   }
   PBT_CHECK(c, in.mu > 0. && (std::isfinite(in.mu) || !(std::fabs(in.inf_pr) < 1e100 && std::fabs(in.obj) < 1e100)), "mu", "iteration %d (%s): barrier parameter %g", in.iter, md, in.mu);
   PBT_CHECK(c, in.mu == d->curr_mu() || std::isnan(in.mu), "mu", "iteration %d (%s): barrier parameter reported %g, current is %g", in.iter, md, in.mu, d->curr_mu());
   double smag = 0;
   for( int k = 0; k < 4; ++k )
      smag = std::max(smag, amax(s.sl[k]));
   hist = std::max(hist, std::max(smag, std::max(amax(s.x), amax(s.s))));
   bool square = q->IsSquareProblem();   // just a system of equations: multipliers do not matter
   for( int k = 0; k < 4; ++k )
      for( size_t i = 0; i < s.z[k].size(); ++i )
      {
         PBT_CHECK(c, s.sl[k][i] > 0., "slack", "iteration %d (%s): slack %d of %s is %g", in.iter, md, (int)i, ZN[k], s.sl[k][i]);
         PBT_CHECK(c, s.z[k][i] > 0. || (s.z[k][i] == 0. && square), "mult", "iteration %d (%s): multiplier %s[%d] is %g", in.iter, md, ZN[k], (int)i, s.z[k][i]);
      }
   double slmin = 1e300;
   for( int k = 0; k < 4; ++k )
      for( double v : s.sl[k] )
         slmin = std::min(slmin, v);
   // barrier parameter
   if( monotone && !resto )
   {
      if( mu_last_reg > 0 )
         PBT_CHECK(c, in.mu <= mu_last_reg, "mu-monotone", "iteration %d: the barrier parameter rose from %.17g to %.17g with the monotone strategy", in.iter, mu_last_reg, in.mu);
      mu_last_reg = in.mu;
   }
   if( monotone && resto && prev.any && prev.resto )
      PBT_CHECK(c, in.mu <= prev.in.mu, "mu-monotone", "iteration %d: the barrier parameter of the restoration phase rose from %.17g to %.17g with the monotone strategy", in.iter, prev.in.mu, in.mu);
   // reported objective and constraint violation
   Vec x(p.n), g(p.m), gs(p.m), xs(p.n);
   bool got = t.get_curr_iterate(d, q, false, p.n, x.data(), NULL, NULL, p.m, g.data(), NULL);
   PBT_CHECK(c, got, "query", "get_curr_iterate failed");
   double fv = p.f.val(x.data());
   double slackmag = resto ? amax(s.x) : 0.;
   if( std::isfinite(fv) && std::fabs(fv) < 1e100 )
   {
      double tol = 1e-12 * amp(p.f, x.data());
      Vec gr(p.n, 0.);
      p.f.grad(x.data(), gr.data());
      for( int i = 0; i < p.n; ++i )
         tol += 1e-14 * std::fabs(gr[i] * x[i]);
      PBT_CHECK(c, std::fabs(in.obj - fv) <= tol + 1e-300, "obj", "iteration %d (%s): objective reported as %.17g, the user's function is %.17g at the current point", in.iter, md, in.obj, fv);
   }
   // internal (scaled) constraint violation
   {
      double e = 0, mg = 1e-300;
      if( !resto )
      {
         Vec cc = flat(q->curr_c()), dd = flat(q->curr_d());
         for( double v : cc )
            e = std::max(e, std::fabs(v));
         for( size_t i = 0; i < dd.size(); ++i )
         {
            e = std::max(e, std::fabs(dd[i] - s.s[i]));
            mg = std::max(mg, std::fabs(dd[i]));
         }
         if( std::isfinite(e) && in.inf_pr < 1e100 )
            PBT_CHECK(c, std::fabs(in.inf_pr - e) <= 1e-13 * (e + mg), "inf-pr", "iteration %d: constraint violation reported as %.17g, recomputed %.17g", in.iter, in.inf_pr, e);
         // equality constraints in terms of the user's functions
         if( o.str("nlp_scaling_method", "gradient-based") == "none" && !a->faults && !a->o.find("dependency_detector") )
         {
            double e2 = 0, t2 = 0;
            for( int j = 0; j < p.m; ++j )
               if( p.gl[j] == p.gu[j] )
               {
                  double gv = p.g[j].val(x.data());
                  e2 = std::max(e2, std::fabs(gv - p.gl[j]));
                  t2 = std::max(t2, 1e-12 * (amp(p.g[j], x.data()) + std::fabs(p.gl[j])));
               }
            if( std::isfinite(e2) && e2 < 1e100 )
            {
               PBT_CHECK(c, in.inf_pr >= e2 - t2, "inf-pr-user", "iteration %d: constraint violation reported as %.17g, but an equality is violated by %.17g", in.iter, in.inf_pr, e2);
               c.label("user constraint violation compared");
            }
         }
      }
      else
      {
         // the violation of the original problem at the restoration iterate
         got = t.get_curr_iterate(d, q, true, p.n, NULL, NULL, NULL, p.m, gs.data(), NULL);
         PBT_CHECK(c, got, "query", "get_curr_iterate failed");
         Vec vg(p.m);
         t.get_curr_violations(d, q, true, p.n, NULL, NULL, NULL, NULL, NULL, p.m, vg.data(), NULL);
         const CompoundVector* cs = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->s()));
         Vec so = flat(cs->GetComp(0));
         // order of the inequalities in the algorithm is the user's order
         size_t k = 0;
         bool fixedcon = o.str("fixed_variable_treatment", "make_parameter") == "make_constraint" && p.nfixed() > 0;
         for( int j = 0; j < p.m; ++j )
         {
            if( p.gl[j] == p.gu[j] )
               e = std::max(e, std::fabs(vg[j]));
            else if( k < so.size() )
               e = std::max(e, std::fabs(gs[j] - so[k++]));
            mg = std::max(mg, std::fabs(gs[j]));
         }
         if( fixedcon && in.inf_pr > e )
            e = in.inf_pr;    // the additional equations of fixed variables
         if( k == so.size() && std::isfinite(e) && std::isfinite(in.inf_pr) && e < 1e50 && mg < 1e50 )
         {
            PBT_CHECK(c, std::fabs(in.inf_pr - e) <= 1e-12 * (e + mg + slackmag), "inf-pr", "iteration %d (restoration): constraint violation reported as %.17g, recomputed for the original problem %.17g", in.iter, in.inf_pr, e);
            c.label("restoration violation compared");
         }
      }
   }
   // internal (scaled) dual infeasibility
   if( !resto )
   {
      Vec gl(p.n), zl(p.n), zu(p.n);
      t.get_curr_violations(d, q, true, p.n, NULL, NULL, NULL, NULL, gl.data(), p.m, NULL, NULL);
      t.get_curr_iterate(d, q, true, p.n, NULL, zl.data(), zu.data(), p.m, NULL, NULL);
      double e = amax(gl);
      std::string ft = o.str("fixed_variable_treatment", "make_parameter");
      // gradient w.r.t. the slacks of inequalities: -y_d - v_L + v_U
      V yd = d->curr()->y_d();
      SmartPtr<Vector> r = yd->MakeNew();
      r->Set(0.);
      IpoptNLP* nl = GetRawPtr(q->GetIpoptNLP());
      nl->Pd_L()->MultVector(-1., *d->curr()->v_L(), 1., *r);
      nl->Pd_U()->MultVector(1., *d->curr()->v_U(), 1., *r);
      r->Axpy(-1., *yd);
      e = std::max(e, amax(flat(ConstPtr(r))));
      if( std::isfinite(e) && in.inf_du < 1e100 )
         PBT_CHECK(c, !(std::fabs(in.inf_du - e) > 1e-12 * (e + amax(s.z[0]) + amax(s.z[1]) + amax(s.z[2]) + amax(s.z[3]) + yd->Amax())), "inf-du", "iteration %d: dual infeasibility reported as %.17g, recomputed %.17g", in.iter, in.inf_du, e);
   }
   // step
   if( prev.any && prev.resto == resto )
   {
      double dx = 0, xm = 0;
      for( size_t i = 0; i < s.x.size(); ++i )
      {
         dx = std::max(dx, std::fabs(s.x[i] - prev.x[i]));
         xm = std::max(xm, std::max(std::fabs(s.x[i]), std::fabs(prev.x[i])));
      }
      for( size_t i = 0; i < s.s.size(); ++i )
      {
         dx = std::max(dx, std::fabs(s.s[i] - prev.s[i]));
         xm = std::max(xm, std::max(std::fabs(s.s[i]), std::fabs(prev.s[i])));
      }
      bool corr = o.str("corrector_type", "none") != "none";   // the corrected direction is not the reported one
      bool soc = corr || (ch >= 'A' && ch <= 'Z' && ch != 'S');   // the step norm is the one of the original direction
      bool w = ch == 'w' || ch == 'W' || prev.ch == 'w' || prev.ch == 'W' || ch == 'r' || ch == 'R' || ch == 'X' || o.str("adaptive_mu_restore_previous_iterate", "no") == "yes";   // may go back to an earlier iterate
      c.label(pbt::fmt("step %c", ch));
      if( !(resto && ch == 'R') && ch != 'X' )   // cg-penalty goes back to a stored point; restoration within the restoration phase: no step
         PBT_CHECK(c, in.alpha_pr > 0. || !(std::fabs(in.obj) < 1e100 && in.inf_du < 1e100 && in.d_norm < 1e100), ch == 'S' ? "alpha-after-soft-resto" : "alpha", "iteration %d (%s): primal step size %g", in.iter, md, in.alpha_pr);
      bool magic = o.str("magic_steps", "no") == "yes";
      if( !w && !soc && !magic && d->delta().operator->() )
      {
         double e = in.alpha_pr * in.d_norm, tol = 1e-13 * xm + 1e-12 * e;
         PBT_CHECK(c, std::fabs(dx - e) <= tol || !(in.d_norm < 1e100), ch == 'S' ? "alpha-after-soft-resto" : "step", "iteration %d (%s, %c): the iterate moved by %.17g, but step size %.17g times step norm %.17g is %.17g", in.iter, md, ch, dx, in.alpha_pr, in.d_norm, e);
         ++steps;
      }
      if( !w && !corr )
      {
         // fraction to the boundary
         for( int k = 0; k < 4; ++k )
            for( size_t i = 0; i < s.sl[k].size(); ++i )
            {
               double lo = (1 - s.tau) * prev.sl[k][i];
               PBT_CHECK(c, s.sl[k][i] >= lo * (1 - 1e-6) - 1e-13 * xm, "boundary", "iteration %d (%s, %c): slack %d of %s went from %g to %g, tau=%.17g", in.iter, md, ch, (int)i, ZN[k], prev.sl[k][i], s.sl[k][i], s.tau);
            }
         ++ftb;
      }
      // multipliers stay within kappa_sigma of the primal Hessian
      double dz[4] = {0, 0, 0, 0};
      if( IsValid(d->delta()) && IsValid(d->delta()->z_L()) && IsValid(d->delta()->v_U()) )
      {
         dz[0] = d->delta()->z_L()->Amax();
         dz[1] = d->delta()->z_U()->Amax();
         dz[2] = d->delta()->v_L()->Amax();
         dz[3] = d->delta()->v_U()->Amax();
      }
      double ks = o.num("kappa_sigma", 1e10);
      if( monotone && ks >= 1. && !magic && !square && !soc )
         for( int k = 0; k < 4; ++k )
            for( size_t i = 0; i < s.z[k].size(); ++i )
            {
               if( s.sl[k][i] < 1e-8 || s.sl[k][i] > 1e8 )
                  continue;   // slacks may have been pushed away from zero afterwards
               double v = s.z[k][i] * s.sl[k][i];
               double ct = 1e-14 * (prev.z[k][i] + dz[k]) * s.sl[k][i] + 1e-15 * hist * s.z[k][i];   // moving one bound recomputes all bounds as x -/+ slack   // cancellation when the correction was added
               PBT_CHECK(c, v <= ks * in.mu * (1 + 1e-8) + ct && v >= in.mu / ks * (1 - 1e-8) - ct, "kappa-sigma", "iteration %d (%s, %c): %s[%d]=%.17g slack %.17g: product %.17g, mu %.17g, kappa_sigma %g, previous %g, step %g", in.iter, md, ch, ZN[k], (int)i, s.z[k][i], s.sl[k][i], v, in.mu, ks, prev.z[k][i], dz[k]);
            }
   }
   prev = s;
}
static const int FL = AF_FAULTS | AF_STOP | AF_FD | AF_USERSCALE | AF_WARM | AF_INFEAS | AF_FIXEDTREAT | AF_HINTS | AF_LIMITS | AF_PENALTY | AF_DEP;
static void f_reports(Ctx& c)
{
   Any a;
   gen_any(c, a, FL, c.src.flip(0.3) ? 0.2 : 0.04);
   if( c.src.flip(0.15) )
      a.o.N("obj_scaling_factor", (c.src.flip(0.3) ? -1. : 1.) * c.src.logreal(1e-3, 1e3));
   if( c.src.flip(0.2) )
      a.o.S("start_with_resto", "yes");
   if( !a.userscale && c.src.flip(0.3) )
      a.o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.1) )
      a.o.N("kappa_sigma", c.src.logreal(1, 100));
   if( a.o.num("max_iter", 150) > 60 )
      a.o.I("max_iter", 60);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Mon m;
   m.c = &c;
   m.a = &a;
   m.sm = a.o.num("slack_move", 1.82e-12);
   auto prev = t->on_iter;
   t->on_iter = [&, prev](RecTNLP & r, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * q)
   {
      bool go = prev ? prev(r, i, d, q) : true;
      m.report(r, i, d, q);
      return go;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports, " << m.restos << " in restoration\n";
   c.label(statname(r.app));
   if( m.restos )
      c.label("with restoration");
   c.nontrivial = m.steps > 0 || m.restos > 0;
   // the iteration count of the statistics is the last counter
   if( r.have_stats && !r.iters.empty() && r.iters.back().mode == RegularMode )
      PBT_CHECK(c, r.iter_count >= r.iters.back().iter && r.iter_count <= r.iters.back().iter + 1, "count", "statistics report %d iterations, the last report was number %d", r.iter_count, r.iters.back().iter);
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P14", "at least one step was compared with the preceding report, or restoration reports were seen",
      {{"reports", f_reports, 14000, 800000}}
   };
   return pbt::run_main(argc, argv, ck);
}
