// P01: a reported success is a point that satisfies the requested tolerances (recomputed independently).
#include "nlp.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void options(Ctx& c, Opts& o, bool acceptable)
{
   pbt::Src& s = c.src;
   static const double tols[] = {1e-8, 1e-4, 1e-6, 1e-3, 1e-9, 1e-2};
   if( acceptable )
   {
      o.N("tol", s.flip() ? 1e-16 : 1e-12).N("acceptable_tol", tols[s.below(6)]).I("acceptable_iter", s.integer(1, 4));
      if( s.flip(0.3) )
         o.N("acceptable_dual_inf_tol", std::pow(10., -s.integer(-1, 6)));
      if( s.flip(0.3) )
         o.N("acceptable_constr_viol_tol", std::pow(10., -s.integer(0, 7)));
      if( s.flip(0.3) )
         o.N("acceptable_compl_inf_tol", std::pow(10., -s.integer(0, 7)));
      if( s.flip(0.3) )
         o.N("acceptable_obj_change_tol", std::pow(10., -s.integer(0, 5)));
   }
   else
   {
      o.N("tol", tols[s.below(6)]);
      if( s.flip(0.7) )
         o.I("acceptable_iter", 0);
   }
   if( s.flip(0.5) )
      o.N("dual_inf_tol", std::pow(10., -s.integer(0, 8)));
   if( s.flip(0.5) )
      o.N("constr_viol_tol", std::pow(10., -s.integer(2, 9)));
   if( s.flip(0.5) )
      o.N("compl_inf_tol", std::pow(10., -s.integer(2, 9)));
   static const char* sc[] = {"none", "gradient-based"};
   o.S("nlp_scaling_method", sc[s.below(2)]);
   if( s.flip(0.3) )
      o.N("nlp_scaling_max_gradient", s.flip() ? 1. : 10.);
   if( s.flip(0.2) )
      o.N("obj_scaling_factor", s.flip() ? 0.01 : 10.);
   if( s.flip(0.4) )
      o.S("mu_strategy", "adaptive");
   if( s.flip(0.2) )
      o.S("hessian_approximation", "limited-memory");
   if( s.flip(0.3) )
      o.S("honor_original_bounds", "yes");
   if( s.flip(0.2) )
      o.N("bound_relax_factor", s.flip() ? 0. : 1e-6);
   if( s.flip(0.2) )
      o.N("mu_init", std::pow(10., -s.integer(0, 4)));
   if( s.flip(0.15) )
      o.N("mu_target", 1e-3);
   if( s.flip(0.15) )
      o.S("line_search_method", s.flip() ? "cg-penalty" : "penalty");
   if( s.flip(0.15) )
      o.S("fixed_variable_treatment", s.flip() ? "make_constraint" : "make_parameter");
   if( s.flip(0.1) )
      o.S("accept_every_trial_step", "yes");
   o.I("max_iter", 200);
}

static void check_point(Ctx& c, const Problem& p, const Opts& o, const Outcome& r)
{
   bool acc = r.app == Solved_To_Acceptable_Level;
   double tol = acc ? o.num("acceptable_tol", 1e-6) : o.num("tol", 1e-8);
   double dtol = acc ? o.num("acceptable_dual_inf_tol", 1e10) : o.num("dual_inf_tol", 1);
   double ctol = acc ? o.num("acceptable_constr_viol_tol", 1e-2) : o.num("constr_viol_tol", 1e-4);
   double ztol = acc ? o.num("acceptable_compl_inf_tol", 1e-2) : o.num("compl_inf_tol", 1e-4);
   double brf = o.num("bound_relax_factor", 1e-8), cvt = o.num("constr_viol_tol", 1e-4);
   double mut = o.num("mu_target", 0);
   bool fconstr = o.str("fixed_variable_treatment", "make_parameter") == "make_constraint";
   // documented scaling
   double df = 1;
   Vec dc(p.m, 1.);
   if( o.str("nlp_scaling_method", "gradient-based") == "gradient-based" )
   {
      double mg = o.num("nlp_scaling_max_gradient", 100);
      Vec x0 = p.x0;
      if( !fconstr )
         for( int i = 0; i < p.n; ++i )
            if( p.fixed(i) )
               x0[i] = p.xl[i];
      Vec g(p.n, 0.);
      p.f.grad(x0.data(), g.data());
      double mx = 0;
      for( int i = 0; i < p.n; ++i )
         if( fconstr || !p.fixed(i) )
            mx = std::max(mx, std::fabs(g[i]));
      if( mx > mg )
         df = std::max(mg / mx, 1e-8);
      for( int j = 0; j < p.m; ++j )
      {
         Vec q(p.n, 0.);
         p.g[j].grad(x0.data(), q.data());
         mx = 0;
         for( int i = 0; i < p.n; ++i )
            if( fconstr || !p.fixed(i) )
               mx = std::max(mx, std::fabs(q[i]));
         if( mx > mg )
            dc[j] = std::max(mg / mx, 1e-8);
      }
   }
   df *= o.num("obj_scaling_factor", 1);

   // magnitudes for tolerances
   double relx = 0;   // largest bound relaxation
   double zsum = 0, ysum = 0;
   int nz = 0, ny = 0;
   for( int i = 0; i < p.n; ++i )
   {
      bool fx = p.fixed(i);
      if( fx && !fconstr )
         continue;
      if( fx )
      {
         ++ny;
         ysum += std::fabs(r.zl[i] - r.zu[i]) * df;
         continue;
      }
      if( p.xl[i] > -1e19 )
      {
         ++nz;
         zsum += r.zl[i] * df;
         relx = std::max(relx, std::min(cvt, brf * std::max(1., std::fabs(p.xl[i]))));
      }
      if( p.xu[i] < 1e19 )
      {
         ++nz;
         zsum += r.zu[i] * df;
         relx = std::max(relx, std::min(cvt, brf * std::max(1., std::fabs(p.xu[i]))));
      }
   }
   for( int j = 0; j < p.m; ++j )
   {
      ++ny;
      ysum += std::fabs(r.lam[j]) * df / dc[j];
      if( p.gl[j] == p.gu[j] )
         continue;
      int k = (p.gl[j] > -1e19) + (p.gu[j] < 1e19);
      nz += k;
      // |v| is |y| plus at most what near-central values add on the other side
      zsum += 1.2 * std::fabs(r.lam[j]) * df / dc[j] + 0.1 * k;
   }
   // upper bounds of the documented multiplier-dependent scaling
   double sc = nz ? std::max(100., 1.1 * zsum / nz) / 100 : 1;
   double sd = nz + ny ? std::max(100., 1.1 * (zsum + ysum) / (nz + ny)) / 100 : 1;

   KKT k = kkt(p, r.x, r.lam, r.zl, r.zu);
   // Hessian magnitude for the effect of moving x by the bound relaxation, and rounding noise
   Vec H((size_t)(p.n * p.n), 0.);
   p.f.hess(r.x.data(), H.data(), p.n, 1);
   for( int j = 0; j < p.m; ++j )
      p.g[j].hess(r.x.data(), H.data(), p.n, r.lam[j]);
   double hmax = maxabs(H) * p.n;
   double gmag = 1, jmax = 0;
   {
      Vec g(p.n, 0.);
      p.f.grad(r.x.data(), g.data());
      gmag += maxabs(g);
      for( int j = 0; j < p.m; ++j )
      {
         Vec q(p.n, 0.);
         p.g[j].grad(r.x.data(), q.data());
         gmag += std::fabs(r.lam[j]) * maxabs(q);
         jmax = std::max(jmax, maxabs(q));
      }
      gmag += maxabs(r.zl) + maxabs(r.zu);
   }
   bool honor = o.str("honor_original_bounds", "no") == "yes";
   double xmove = honor ? 1.01 * relx : 0;
   double noise = 1e-10 * gmag;
   // stationarity (free variables; fixed ones have multipliers computed to satisfy it)
   double dlim = std::min(dtol, tol * sd / df);
   for( int i = 0; i < p.n; ++i )
      PBT_CHECK(c, std::fabs(k.r[i]) <= 1.01 * dlim + hmax * xmove + noise, "dual", "%s but |grad of Lagrangian|_%d = %g > %g (tol %g, dual_inf_tol %g, s_d<=%g, obj scaling %g)",
                statname(r.app), i, std::fabs(k.r[i]), dlim, tol, dtol, sd, df);
   // constraints
   Vec g = p.geval(r.x.data());
   for( int j = 0; j < p.m; ++j )
   {
      double b = p.gl[j] > -1e19 && g[j] < p.gl[j] ? p.gl[j] : p.gu[j];
      double v = std::max(p.gl[j] > -1e19 ? p.gl[j] - g[j] : 0., p.gu[j] < 1e19 ? g[j] - p.gu[j] : 0.);
      double rel = p.gl[j] == p.gu[j] || std::fabs(b) > 1e19 ? 0. : std::min(cvt, brf * std::max(1., std::fabs(b) * dc[j])) / dc[j];
      double lim = std::min(ctol, tol / dc[j]) + rel;
      PBT_CHECK(c, v <= 1.01 * lim + jmax * p.n * xmove + 1e-11 * (1 + std::fabs(g[j])), "constr", "%s but constraint %d violated by %g > %g", statname(r.app), j, v, lim);
   }
   // bounds
   for( int i = 0; i < p.n; ++i )
   {
      double lo = p.xl[i], up = p.xu[i];
      double rl = lo > -1e19 ? std::min(cvt, brf * std::max(1., std::fabs(lo))) : 0, ru = up < 1e19 ? std::min(cvt, brf * std::max(1., std::fabs(up))) : 0;
      if( p.fixed(i) )
      {
         double d = std::fabs(r.x[i] - lo);
         PBT_CHECK(c, d <= (fconstr ? 1.01 * std::min(ctol, tol) + 1e-11 * (1 + std::fabs(lo)) : 0.), "fixed", "%s but fixed variable %d is at %.17g instead of %.17g", statname(r.app), i, r.x[i], lo);
         continue;
      }
      if( honor )
         rl = ru = 0;
      // slack_move enlarges bounds by about eps^{3/4}*max(1,|b|) when slacks get too small
      double sl = honor ? 0 : 1e-10 * std::max(1., std::fabs(lo) < 1e19 ? std::fabs(lo) : 1.), su = honor ? 0 : 1e-10 * std::max(1., std::fabs(up) < 1e19 ? std::fabs(up) : 1.);
      PBT_CHECK(c, r.x[i] >= lo - 1.0001 * rl - sl && r.x[i] <= up + 1.0001 * ru + su, "bound", "%s but x%d = %.17g outside [%.17g,%.17g] (honor=%d)", statname(r.app), i, r.x[i], lo, up, (int)honor);
   }
   // complementarity with respect to mu_target
   double zlim = std::min(ztol, tol * sc / df);
   auto comp = [&](const char* what, int i, double z, double slack, double relax)
   {
      double z1 = std::fabs(z) * (relax + xmove + 1e-10 * (1 + std::fabs(slack)));
      PBT_CHECK(c, std::fabs(z * slack - mut / df) <= 1.01 * zlim + z1 + 1e-13, "compl", "%s but complementarity of %s %d is %g (multiplier %g, slack %g) > %g", statname(r.app), what, i, z * slack, z, slack,
                zlim);
   };
   for( int i = 0; i < p.n; ++i )
   {
      if( p.fixed(i) )
         continue;
      if( p.xl[i] > -1e19 )
         comp("lower bound", i, r.zl[i], r.x[i] - p.xl[i], std::min(cvt, brf * std::max(1., std::fabs(p.xl[i]))));
      else
         PBT_CHECK(c, r.zl[i] == 0, "sign", "multiplier %g for missing lower bound of x%d", r.zl[i], i);
      if( p.xu[i] < 1e19 )
         comp("upper bound", i, r.zu[i], p.xu[i] - r.x[i], std::min(cvt, brf * std::max(1., std::fabs(p.xu[i]))));
      else
         PBT_CHECK(c, r.zu[i] == 0, "sign", "multiplier %g for missing upper bound of x%d", r.zu[i], i);
      PBT_CHECK(c, r.zl[i] >= 0 && r.zu[i] >= 0, "sign", "negative bound multiplier %g %g", r.zl[i], r.zu[i]);
   }
   for( int j = 0; j < p.m; ++j )
   {
      if( p.gl[j] == p.gu[j] )
         continue;
      // y = v_U - v_L - r with |r| <= dual limit; v_U*(gU-s), v_L*(s-gL) within limits, s within the constraint tolerance of g
      double y = r.lam[j];
      double rd = 1.01 * std::min(dtol / dc[j], tol * sd / df * dc[j]) + noise;
      rd = std::max(rd, 1.01 * std::min(dtol, tol * sd / df) * dc[j] + noise);
      double sdev = 1.01 * std::max(ctol, tol / dc[j]) + jmax * p.n * xmove + 1e-10 * (1 + std::fabs(g[j]));
      double side = y > 0 ? p.gu[j] : p.gl[j];
      if( std::fabs(side) > 1e19 )
      {
         // multiplier must vanish up to the dual residual and, for a remaining other side, cannot have this sign
         PBT_CHECK(c, std::fabs(y) <= rd, "sign", "%s: multiplier %g of constraint %d points to a missing side", statname(r.app), y, j);
         continue;
      }
      double slack = std::fabs(side - g[j]);
      double relax = std::min(cvt, brf * std::max(1., std::fabs(side) * dc[j])) / dc[j];
      double allow = 1.01 * zlim + std::fabs(y) * (relax + sdev) + rd * (slack + sdev) + (mut > 0 ? 2 * mut / df + 1 : 0);
      PBT_CHECK(c, std::fabs(y) * slack <= allow + 1e-13, "compl", "%s but complementarity of constraint %d is %g (multiplier %g, slack %g) > %g", statname(r.app), j, y * slack, y, slack, allow);
   }
}

static void run(Ctx& c, bool acceptable)
{
   GenCfg g;
   g.nmin = 1;
   g.nmax = 6;
   g.mmax = 4;
   g.fixed = c.src.flip(0.3);
   g.bigscale = c.src.flip(0.4) ? 0.4 : 0;
   Problem p = c.src.flip() ? gen_convex(c, g) : gen_general(c, g);
   Opts o = base_opts();
   options(c, o, acceptable);
   c.desc << p.show() << o.show() << "\n";
   Outcome r = solve(p, o);
   c.label(statname(r.app));
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " iteration reports, x=" << vs(r.x) << "\n";
   if( r.app == Feasible_Point_Found )
   {
      KKT k = kkt(p, r.x, r.lam, r.zl, r.zu);
      c.nontrivial = true;
      PBT_CHECK(c, k.constr <= 1.01 * o.num("constr_viol_tol", 1e-4) + 1e-6, "feasible", "Feasible_Point_Found but constraint violation %g", k.constr);
      return;
   }
   if( !r.okish() )
      return;
   if( acceptable && r.app == Solved_To_Acceptable_Level )
      c.label("acceptable");
   PBT_CHECK(c, r.nfinal == 1, "finalize", "finalize_solution called %d times", r.nfinal);
   c.nontrivial = r.iters.size() > 1 || p.m > 0;
   check_point(c, p, o, r);
}
static void f_success(Ctx& c) { run(c, false); }
static void f_acceptable(Ctx& c) { run(c, true); }

int main(int argc, char** argv)
{
   pbt::Check ck = {"P01", "the solve reported success, acceptable or feasible point and took at least one iteration or had constraints, so that the residual test was applied",
      {{"success", f_success, 9000, 600000}, {"acceptable", f_acceptable, 3000, 200000}}
   };
   return pbt::run_main(argc, argv, ck);
}
