// P15: get_curr_iterate / get_curr_violations agree with what one recomputes from the user's functions.
#include "anycase.hpp"
#include "IpException.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

struct Q
{
   bool ok = false, okv = false;
   Vec x, zl, zu, g, lam, vl, vu, cl, cu, gr, vg, cg;
};
static Q full(RecTNLP& t, const IpoptData* d, IpoptCalculatedQuantities* q, bool scaled)
{
   int n = t.p.n, m = t.p.m;
   Q r;
   for( Vec* v : {&r.x, &r.zl, &r.zu, &r.vl, &r.vu, &r.cl, &r.cu, &r.gr} )
      v->assign(n, -777.25);
   for( Vec* v : {&r.g, &r.lam, &r.vg, &r.cg} )
      v->assign(m, -777.25);
   r.ok = t.get_curr_iterate(d, q, scaled, n, r.x.data(), r.zl.data(), r.zu.data(), m, r.g.data(), r.lam.data());
   r.okv = t.get_curr_violations(d, q, scaled, n, r.vl.data(), r.vu.data(), r.cl.data(), r.cu.data(), r.gr.data(), m, r.vg.data(), r.cg.data());
   return r;
}
static bool finite(const Vec& v)
{
   for( double d : v )
      if( !std::isfinite(d) || std::fabs(d) > 1e50 )
         return false;
   return true;
}
/** magnitude of the terms of f and of each partial derivative at x */
static double mag(const Func& f, const double* x)
{
   double r = std::fabs(f.c0);
   for( auto& q : f.t )
   {
      Func one;
      one.t.push_back(q);
      r += std::fabs(one.val(x));
   }
   return r;
}
static void gmag(const Func& f, const double* x, Vec& out, int n, double w)
{
   Vec g(n);
   for( auto& q : f.t )
   {
      Func one;
      one.t.push_back(q);
      std::fill(g.begin(), g.end(), 0.);
      one.grad(x, g.data());
      for( int i = 0; i < n; ++i )
         out[i] += std::fabs(w * g[i]);
   }
}
struct Run
{
   bool mc, mp, nodual, rb;
   double brf, cvt, sm, os;
   bool known_scale;     // scaling factors known in advance
   double df = 0;
   Vec dx, dg;           // 0: not yet seen
   int ncb = 0, nresto = 0;
   mutable Vec xh;       // largest |x_i| so far: moving one bound recomputes all bounds as x - slack
   double slackmag = 0;  // largest entry of the restoration problem's iterate, whose slacks are added to and subtracted from g(x)
};
static void check_unscaled(Ctx& c, const Any& a, const Run& R, const Q& r, bool resto)
{
   const Problem& p = a.p;
   const char* md = resto ? "restoration" : "regular";
   if( !finite(r.x) || !finite(r.lam) || !finite(r.zl) || !finite(r.zu) )
   {
      c.label("non-finite iterate");
      return;
   }
   double xm = 1;
   for( double v : r.x )
      xm = std::max(xm, std::fabs(v));
   R.xh.resize(p.n, 0.);
   for( int i = 0; i < p.n; ++i )
      R.xh[i] = std::max(R.xh[i], std::fabs(r.x[i]));
   // fixed variables in place
   for( int i = 0; i < p.n; ++i )
   {
      if( p.fixed(i) && (R.mp || R.nodual) )
         PBT_CHECK(c, r.x[i] == p.xl[i], "fixed-x", "%s: fixed variable x%d is %.17g instead of %.17g", md, i, r.x[i], p.xl[i]);
      double rx = 1e-13 * std::fabs(r.x[i]);
      if( p.fixed(i) && R.mc )
         rx += 1e-13 * std::fabs(p.xl[i]) + 1e-12 * R.slackmag;
      if( R.brf == 0. )   // bounds moved away from too small slacks replace the original ones then
         rx += 1e-10 * std::max(1., std::fabs(r.x[i])) + 1e-15 * R.xh[i];
      if( !(p.fixed(i) && R.rb) )
      {
         double el = p.xl[i] > -1e19 ? std::max(0., p.xl[i] - r.x[i]) : 0., eu = p.xu[i] < 1e19 ? std::max(0., r.x[i] - p.xu[i]) : 0.;
         PBT_CHECK(c, std::fabs(r.vl[i] - el) <= rx && std::fabs(r.vu[i] - eu) <= rx, "xviol", "%s: x%d=%.17g in [%g,%g] but bound violations are reported as %.17g %.17g", md, i, r.x[i], p.xl[i], p.xu[i], r.vl[i], r.vu[i]);
      }
      // complementarity
      double relax = std::min(R.cvt, 1.) * 0;
      (void)relax;
      for( int up = 0; up < 2; ++up )
      {
         double b = up ? p.xu[i] : p.xl[i], z = up ? r.zu[i] : r.zl[i], v = up ? r.cu[i] : r.cl[i];
         if( p.fixed(i) && R.rb )
            continue;
         if( std::fabs(b) >= 1e19 )
         {
            PBT_CHECK(c, v == 0. && z == 0., "no-bound", "%s: x%d has no %s bound, but multiplier %.17g and complementarity %.17g", md, i, up ? "upper" : "lower", z, v);
            continue;
         }
         double e = (up ? b - r.x[i] : r.x[i] - b) * z;
         if( p.fixed(i) )
         {
            if( R.mc )
               PBT_CHECK(c, std::fabs(v - e) <= 1e-12 * std::fabs(z) * (std::fabs(r.x[i]) + std::fabs(b) + R.slackmag) + 1e-300, "compl-fixed", "%s: fixed x%d=%.17g multiplier %.17g complementarity reported %.17g, should be %.17g", md, i, r.x[i], z, v, e);
            else
               PBT_CHECK(c, v == 0., "compl-fixed", "%s: fixed x%d has complementarity %.17g", md, i, v);
            continue;
         }
         double xs = R.dx.empty() || R.dx[i] == 0 ? 1. : R.dx[i];
         double rel = std::min(R.cvt, R.brf * std::max(1., std::fabs(b) * std::max(1., xs))) * std::max(1., 1 / xs) + R.sm * (R.ncb + 3) * std::max(1. / xs, std::fabs(b));
         if( R.brf == 0. )
            rel = R.sm * (R.ncb + 3) * std::max(1. / xs, std::fabs(b));
         double tol = std::fabs(z) * (rel + 1e-13 * (std::fabs(b) + std::fabs(r.x[i])) + 1e-15 * R.xh[i]) + 1e-300;
         PBT_CHECK(c, std::fabs(v - e) <= tol, "compl-x", "%s: x%d=%.17g %s bound %g multiplier %.17g: complementarity reported %.17g, recomputed %.17g (tol %g)", md, i, r.x[i], up ? "upper" : "lower", b, z, v, e, tol);
      }
   }
   // constraint values
   for( int j = 0; j < p.m; ++j )
   {
      double gv = p.g[j].val(r.x.data()), gm = mag(p.g[j], r.x.data());
      if( !std::isfinite(gv) || gm > 1e50 )
         continue;
      Vec gg(p.n, 0.);
      gmag(p.g[j], r.x.data(), gg, p.n, 1.);
      double tol = 1e-13 * gm + 1e-300;
      for( int i = 0; i < p.n; ++i )
         tol += 1e-14 * gg[i] * xm;
      if( std::fabs(p.gl[j]) < 1e19 && p.gl[j] == p.gu[j] )
         tol += 1e-14 * std::fabs(p.gl[j]);
      if( resto )   // slacks of the restoration problem are added and subtracted again
         tol += 1e-14 * R.slackmag * (R.dg[j] > 0 ? std::max(1., 1 / R.dg[j]) : 1e4) + 1e-12 * (1 + gm + (p.gl[j] > -1e19 ? std::fabs(p.gl[j]) : 0) + (p.gu[j] < 1e19 ? std::fabs(p.gu[j]) : 0)) * (R.dg[j] > 0 ? std::max(1., 1 / R.dg[j]) : 1e4);
      PBT_CHECK(c, std::fabs(r.g[j] - gv) <= tol, "g", "%s: g%d reported as %.17g, but the function is %.17g at the reported x", md, j, r.g[j], gv);
      double ev = 0;
      if( p.gl[j] > -1e19 )
         ev = std::max(ev, p.gl[j] - gv);
      if( p.gu[j] < 1e19 )
         ev = std::max(ev, gv - p.gu[j]);
      double btol = tol + 1e-14 * ((p.gl[j] > -1e19 ? std::fabs(p.gl[j]) : 0) + (p.gu[j] < 1e19 ? std::fabs(p.gu[j]) : 0));
      if( R.brf == 0. )   // bounds moved away from too small slacks replace the original ones then
         btol += R.sm * (R.ncb + 3) * std::max(1., std::fabs(gv) + 1) * (R.dg[j] > 0 ? std::max(1., 1 / R.dg[j]) : 1e4);
      PBT_CHECK(c, std::fabs(r.vg[j] - ev) <= btol, "gviol", "%s: g%d=%.17g in [%g,%g]: violation reported %.17g, recomputed %.17g", md, j, gv, p.gl[j], p.gu[j], r.vg[j], ev);
      double ec;
      if( p.gl[j] == p.gu[j] )
         ec = -(gv - p.gl[j]) * r.lam[j];
      else
      {
         double s = 1;
         ec = 0;
         if( s * r.lam[j] < 0 && p.gl[j] > -1e19 )
            ec = (gv - p.gl[j]) * -r.lam[j];
         if( s * r.lam[j] > 0 && p.gu[j] < 1e19 )
            ec = (p.gu[j] - gv) * r.lam[j];
      }
      PBT_CHECK(c, std::fabs(r.cg[j] - ec) <= btol * std::fabs(r.lam[j]) + 1e-13 * std::fabs(ec) + 1e-300, "compl-g", "%s: g%d=%.17g in [%g,%g] multiplier %.17g: complementarity reported %.17g, recomputed %.17g", md, j, gv, p.gl[j], p.gu[j], r.lam[j], r.cg[j], ec);
   }
   // gradient of the Lagrangian
   Vec L(p.n, 0.), M(p.n, 0.);
   p.f.grad(r.x.data(), L.data());
   gmag(p.f, r.x.data(), M, p.n, 1.);
   for( int j = 0; j < p.m; ++j )
   {
      p.g[j].grad(r.x.data(), L.data(), r.lam[j]);
      gmag(p.g[j], r.x.data(), M, p.n, r.lam[j]);
   }
   Vec H(p.n * p.n, 0.);
   p.f.hess(r.x.data(), H.data(), p.n, 1);
   for( double& v : H )
      v = std::fabs(v);
   for( int j = 0; j < p.m; ++j )
   {
      Vec h(p.n * p.n, 0.);
      p.g[j].hess(r.x.data(), h.data(), p.n, r.lam[j]);
      for( int k = 0; k < p.n * p.n; ++k )
         H[k] = std::fabs(H[k]) + std::fabs(h[k]);
   }
   if( !finite(L) || !finite(M) || !finite(H) )
      return;
   bool fd = a.fd_grad || a.fd_jac;
   for( int i = 0; i < p.n; ++i )
   {
      double e = L[i] - r.zl[i] + r.zu[i];
      double tol = 1e-12 * (M[i] + std::fabs(r.zl[i]) + std::fabs(r.zu[i])) + 1e-300;
      for( int k = 0; k < p.n; ++k )
         tol += 1e-14 * H[i * p.n + k] * xm;
      if( fd )
         continue;
      if( p.fixed(i) && (R.mp || R.nodual) )
      {
         PBT_CHECK(c, r.gr[i] == 0., "grad-fixed", "%s: gradient of the Lagrangian w.r.t. fixed x%d reported as %.17g", md, i, r.gr[i]);
         if( R.mp )
            PBT_CHECK(c, std::fabs(e) <= tol, "mult-fixed", "%s: multipliers of fixed x%d (%.17g %.17g) leave a Lagrangian gradient of %g", md, i, r.zl[i], r.zu[i], e);
         else
            PBT_CHECK(c, r.zl[i] == 0. && r.zu[i] == 0., "mult-nodual", "%s: make_parameter_nodual but multipliers of fixed x%d are %.17g %.17g", md, i, r.zl[i], r.zu[i]);
         continue;
      }
      PBT_CHECK(c, std::fabs(r.gr[i] - e) <= tol, p.fixed(i) ? "grad-lag-fixed" : "grad-lag", "%s: gradient of the Lagrangian w.r.t. %sx%d reported as %.17g, recomputed %.17g (tol %g)", md, p.fixed(i) ? "fixed " : "", i, r.gr[i], e, tol);
   }
   c.label(resto ? "restoration iterate checked" : "regular iterate checked");
}
static void ratio(Ctx& c, Run& R, double& fac, double sc, double un, const char* what, int i, double atol = 0)
{
   if( !std::isfinite(sc) || !std::isfinite(un) || std::fabs(un) > 1e50 || std::fabs(un) < 1e-200 )
      return;
   if( fac == 0 )
   {
      if( std::fabs(un) > 1e-3 + 1e6 * atol )
         fac = sc / un;
      return;
   }
   (void)R;
   PBT_CHECK(c, std::fabs(sc - fac * un) <= 1e-11 * std::fabs(fac * un) + std::fabs(fac) * atol, "scaled", "%s[%d]: scaled value %.17g, unscaled %.17g, but the scaling factor is %.17g", what, i, sc, un, fac);
}
static void check_scaled(Ctx& c, const Any& a, Run& R, const Q& s, const Q& u, bool resto)
{
   const Problem& p = a.p;
   if( !finite(u.x) || !finite(u.lam) || !finite(u.zl) || !finite(u.zu) || !finite(s.x) || !finite(s.lam) || !finite(s.zl) || !finite(s.zu) )
      return;
   auto use = [&](int i)
   {
      return !(p.fixed(i) && (R.mp || R.nodual));
   };
   for( int i = 0; i < p.n; ++i )
      if( use(i) )
         ratio(c, R, R.dx[i], s.x[i], u.x[i], "x", i);
      else if( R.dx[i] == 1. )
         PBT_CHECK(c, s.x[i] == p.xl[i], "scaled-fixed", "scaled request: fixed x%d is %.17g instead of %.17g", i, s.x[i], p.xl[i]);
   for( int j = 0; j < p.m; ++j )
   {
      double rhs = std::fabs(p.gl[j]) < 1e19 && p.gl[j] == p.gu[j] ? std::fabs(p.gl[j]) : 0;
      ratio(c, R, R.dg[j], s.g[j], u.g[j], "g", j, 1e-14 * R.slackmag + (resto ? 1e-12 : 1e-14) * (rhs + mag(p.g[j], u.x.data())));
      if( R.dg[j] != 0 )
         ratio(c, R, R.dg[j], s.vg[j], u.vg[j], "constraint violation", j, 1e-14 * R.slackmag + (resto ? 1e-11 : 1e-13) * ((p.gl[j] > -1e19 ? std::fabs(p.gl[j]) : 0) + (p.gu[j] < 1e19 ? std::fabs(p.gu[j]) : 0) + mag(p.g[j], u.x.data())));
   }
   // objective factor: from complementarity or multipliers
   for( int i = 0; i < p.n; ++i )
      if( use(i) && R.dx[i] != 0 )
      {
         if( !p.fixed(i) )   // a fixed variable that became a constraint is scaled as a constraint
            if( R.df == 0 )
            {
               if( std::fabs(u.zl[i]) > 1e-6 )
                  R.df = s.zl[i] / u.zl[i] * R.dx[i];
               else if( std::fabs(u.zu[i]) > 1e-6 )
                  R.df = s.zu[i] / u.zu[i] * R.dx[i];
            }
      }
   for( int j = 0; j < p.m; ++j )
      if( R.df == 0 && R.dg[j] != 0 && std::fabs(u.lam[j]) > 1e-6 )
         R.df = s.lam[j] / u.lam[j] * R.dg[j];
   if( R.df == 0 )
      return;
   for( int j = 0; j < p.m; ++j )
   {
      if( R.dg[j] == 0 )
         continue;
      double f = R.df / R.dg[j];
      ratio(c, R, f, s.lam[j], u.lam[j], "lambda", j);
      // complementarity: with a negative objective factor the signs of lambda swap roles
      if( R.df > 0 || p.gl[j] == p.gu[j] )
         ratio(c, R, R.df, s.cg[j], u.cg[j], "constraint complementarity", j, 1e-14 * R.slackmag * std::fabs(u.lam[j]) + (resto ? 1e-11 : 1e-13) * std::fabs(u.lam[j]) * (1 + (p.gl[j] > -1e19 ? std::fabs(p.gl[j]) : 0) + (p.gu[j] < 1e19 ? std::fabs(p.gu[j]) : 0) + mag(p.g[j], u.x.data())));
   }
   Vec M(p.n, 0.);
   gmag(p.f, u.x.data(), M, p.n, 1.);
   for( int j = 0; j < p.m; ++j )
      gmag(p.g[j], u.x.data(), M, p.n, u.lam[j]);
   for( int i = 0; i < p.n; ++i )
   {
      if( !use(i) )
      {
         if( R.dx[i] == 1. )
         {
            double d1 = s.zl[i] - s.zu[i], d2 = R.df * (u.zl[i] - u.zu[i]);
            PBT_CHECK(c, std::fabs(d1 - d2) <= 1e-11 * std::fabs(d2), "scaled-fixed-mult", "scaled request: multipliers of fixed x%d are %.17g %.17g, unscaled %.17g %.17g, objective factor %g", i, s.zl[i], s.zu[i], u.zl[i], u.zu[i], R.df);
            PBT_CHECK(c, s.zl[i] >= 0 && s.zu[i] >= 0, "scaled-fixed-mult", "scaled request: multipliers of fixed x%d are %.17g %.17g", i, s.zl[i], s.zu[i]);
         }
         continue;
      }
      if( R.dx[i] == 0 || (p.fixed(i) && R.df < 0) )
         continue;
      double f = R.df / R.dx[i];
      bool con = p.fixed(i) && R.mc;   // scaled like a constraint
      if( !con )
      {
         ratio(c, R, f, s.zl[i], u.zl[i], "z_L", i);
         ratio(c, R, f, s.zu[i], u.zu[i], "z_U", i);
      }
      if( !p.fixed(i) )
      {
         ratio(c, R, R.df, s.cl[i], u.cl[i], "compl_x_L", i);
         ratio(c, R, R.df, s.cu[i], u.cu[i], "compl_x_U", i);
      }
      else
      {
         ratio(c, R, R.df, s.cl[i], u.cl[i], "compl_x_L", i, 1e-13 * std::fabs(u.zl[i]) * (1 + std::fabs(u.x[i]) + R.slackmag));
         ratio(c, R, R.df, s.cu[i], u.cu[i], "compl_x_U", i, 1e-13 * std::fabs(u.zu[i]) * (1 + std::fabs(u.x[i]) + R.slackmag));
      }
      if( std::isfinite(u.gr[i]) )
         ratio(c, R, f, s.gr[i], u.gr[i], "grad_lag_x", i, 1e-12 * (M[i] + std::fabs(u.zl[i]) + std::fabs(u.zu[i])));
      double xt = 1e-13 * (std::fabs(u.x[i]) + (p.xl[i] > -1e19 ? std::fabs(p.xl[i]) : 0) + (p.xu[i] < 1e19 ? std::fabs(p.xu[i]) : 0));
      if( !(p.fixed(i) && R.rb) && !con )
      {
         ratio(c, R, R.dx[i], s.vl[i], u.vl[i], "x_L_violation", i, xt);
         ratio(c, R, R.dx[i], s.vu[i], u.vu[i], "x_U_violation", i, xt);
      }
   }
   c.label("scaled request checked");
}
static Run make_run(const Any& a, RecTNLP& t)
{
   Run R;
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   R.mc = ft == "make_constraint";
   R.mp = ft == "make_parameter";
   R.nodual = ft == "make_parameter_nodual";
   R.rb = ft == "relax_bounds";
   R.brf = a.o.num("bound_relax_factor", 1e-8);
   R.cvt = a.o.num("constr_viol_tol", 1e-4);
   R.sm = a.o.num("slack_move", 1.82e-12);
   R.os = a.o.num("obj_scaling_factor", 1.);
   R.dx.assign(a.p.n, 1.);
   R.dg.assign(a.p.m, 0.);
   std::string sm = a.o.str("nlp_scaling_method", "gradient-based");
   R.known_scale = a.userscale || sm == "none";
   if( a.userscale )
   {
      R.df = R.os * t.obj_scaling;
      for( int i = 0; i < a.p.n; ++i )
         R.dx[i] = t.use_x_scaling ? t.x_scaling[i] : 1.;
      for( int j = 0; j < a.p.m; ++j )
         R.dg[j] = t.use_g_scaling ? t.g_scaling[j] : 1.;
   }
   else if( sm == "none" )
   {
      R.df = R.os;
      R.dg.assign(a.p.m, 1.);
   }
   else if( sm != "gradient-based" )
      R.dx.assign(a.p.n, 0.);
   return R;
}
static const int FL = AF_STOP | AF_FD | AF_USERSCALE | AF_WARM | AF_INFEAS | AF_FIXEDTREAT | AF_HINTS | AF_LIMITS | AF_PENALTY;
static void more(Ctx& c, Any& a)
{
   if( c.src.flip(0.15) )
      a.o.N("obj_scaling_factor", (c.src.flip(0.4) ? -1. : 1.) * c.src.logreal(1e-3, 1e3));
   if( c.src.flip(0.15) )
   {
      a.o.N("nlp_scaling_max_gradient", c.src.logreal(1e-2, 10));
      if( !a.userscale )
         a.o.S("nlp_scaling_method", "gradient-based");
   }
   if( c.src.flip(0.15) )
      a.o.S("start_with_resto", "yes");
   if( a.o.I("max_iter", 0).v.size() )
      a.o.v.pop_back();
   if( a.o.num("max_iter", 150) > 40 )
      a.o.I("max_iter", 40);
}
static void f_values(Ctx& c)
{
   Any a;
   gen_any(c, a, FL, c.src.flip(0.3) ? 0.2 : 0.04);
   more(c, a);
   if( a.o.str("replace_bounds", "no") == "yes" )
      c.discard();
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Run R = make_run(a, *t);
   auto prev = t->on_iter;
   pbt::Ctx* pc = &c;
   bool order = c.src.flip();
   Q lastq;
   char lastchar = ' ';
   t->on_iter = [&, prev](RecTNLP & r, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * q)
   {
      bool go = prev ? prev(r, i, d, q) : true;
      bool resto = i.mode == RestorationPhaseMode;
      R.ncb++;
      R.nresto += resto;
      R.slackmag = resto ? d->curr()->x()->Amax() : 0;
      if( !(R.slackmag < 1e50) || !(std::fabs(i.obj) < 1e100) )
      {
         lastq = Q();
         return go;
      }
      Q u, s;
      if( order )
         s = full(r, d, q, true);
      u = full(r, d, q, false);
      if( !order )
         s = full(r, d, q, true);
      Ctx& c = *pc;
      PBT_CHECK(c, u.ok && u.okv && s.ok && s.okv, "returns-false", "queries returned %d %d %d %d in iteration %d", u.ok, u.okv, s.ok, s.okv, i.iter);
      check_unscaled(c, a, R, u, resto);
      check_scaled(c, a, R, s, u, resto);
      lastq = u;
      lastchar = d->info_alpha_primal_char();   // in a watchdog trial the final point is the one before it
      return go;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(statname(r.app));
   c.nontrivial = R.ncb > 0;
   // afterwards there is no current iterate any more
   Vec x(a.p.n), g(a.p.m);
   PBT_CHECK(c, !t->get_curr_iterate(NULL, NULL, false, a.p.n, x.data(), NULL, NULL, a.p.m, g.data(), NULL), "outside", "get_curr_iterate returned true without solve data");
   PBT_CHECK(c, !t->get_curr_violations(NULL, NULL, false, a.p.n, x.data(), NULL, NULL, NULL, NULL, a.p.m, NULL, NULL), "outside", "get_curr_violations returned true without solve data");
   // the last report of a regular run is the final point
   bool limit = r.app == Solve_Succeeded || r.app == User_Requested_Stop || r.app == Diverging_Iterates || r.app == Maximum_Iterations_Exceeded;
   if( limit && r.nfinal == 1 && !r.iters.empty() && r.iters.back().mode == RegularMode && a.o.str("honor_original_bounds", "no") == "no" && lastq.ok && finite(lastq.x) && lastchar != 'w' )
   {
      PBT_CHECK(c, eqbits(lastq.x, r.x), "final-x", "the last report had x=%s, the final point is %s (%s)", vs(lastq.x).c_str(), vs(r.x).c_str(), statname(r.app));
      PBT_CHECK(c, maxdiff(lastq.lam, r.lam) == 0. || !finite(r.lam), "final-lam", "the last report had lambda=%s, the final point %s", vs(lastq.lam).c_str(), vs(r.lam).c_str());
      PBT_CHECK(c, maxdiff(lastq.g, r.g) == 0. || !finite(r.g), "final-g", "the last report had g=%s, the final point %s", vs(lastq.g).c_str(), vs(r.g).c_str());
      PBT_CHECK(c, (maxdiff(lastq.zl, r.zl) == 0. && maxdiff(lastq.zu, r.zu) == 0.) || !finite(r.zl), "final-z", "the last report had z %s %s, the final point %s %s", vs(lastq.zl).c_str(), vs(lastq.zu).c_str(), vs(r.zl).c_str(), vs(r.zu).c_str());
      c.label("final point compared");
   }
}
// arbitrary subsets of outputs give the same values, leave the rest alone, and do not influence the run
static void f_subsets(Ctx& c)
{
   Any a;
   gen_any(c, a, FL | AF_FAULTS, c.src.flip(0.3) ? 0.2 : 0.04);
   more(c, a);
   if( a.faults && a.o.str("fixed_variable_treatment", "make_parameter") == "make_parameter" && a.p.nfixed() )
      c.discard();
   if( a.faults )
      c.label("faults");
   c.desc << a.show();
   SmartPtr<RecTNLP> t0 = a.make();
   Outcome r0 = solve(GetRawPtr(t0), a.o);
   SmartPtr<RecTNLP> t = a.make();
   auto prev = t->on_iter;
   auto oldfault = t->fault;
   pbt::Ctx* pc = &c;
   int n = a.p.n, m = a.p.m, nq = 0;
   unsigned long st = c.src.below(1 << 20) * 7919ul + 1;
   auto rnd = [&st]()
   {
      st = st * 6364136223846793005ul + 1442695040888963407ul;
      return (unsigned)(st >> 33);
   };
   t->on_iter = [&, prev](RecTNLP & r, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * q)
   {
      Ctx& c = *pc;
      bool go = prev ? prev(r, i, d, q) : true;
      if( a.faults )
         return go;
      for( int rep = rnd() % 3; rep > 0; --rep )
      {
         ++nq;
         bool scaled = rnd() % 2;
         Vec buf[12];
         double* ptr[12];
         unsigned mask = rnd() & rnd();
         if( rnd() % 3 == 0 )
            mask |= rnd();
         for( int k = 0; k < 12; ++k )
         {
            bool con = k == 3 || k == 4 || k >= 10;
            buf[k].assign((con ? m : n) + 1, -777.25);
            ptr[k] = (mask >> k) & 1 ? buf[k].data() : NULL;
         }
         bool anyx = ptr[0] || (ptr[1] && ptr[2]), anyg = ptr[3] || ptr[4];
         int qn = anyx || rnd() % 2 ? n : (int)(rnd() % 50) - 10, qm = anyg || rnd() % 2 ? m : (int)(rnd() % 50) - 10;
         bool ok1 = r.get_curr_iterate(d, q, scaled, qn, ptr[0], ptr[1], ptr[2], qm, ptr[3], ptr[4]);
         bool anyx2 = ptr[5] || ptr[6] || ptr[7] || ptr[8] || ptr[9], anyg2 = ptr[10] || ptr[11];
         qn = anyx2 || rnd() % 2 ? n : (int)(rnd() % 50) - 10;
         qm = anyg2 || rnd() % 2 ? m : (int)(rnd() % 50) - 10;
         bool ok2 = r.get_curr_violations(d, q, scaled, qn, ptr[5], ptr[6], ptr[7], ptr[8], ptr[9], qm, ptr[10], ptr[11]);
         PBT_CHECK(c, ok1 && ok2, "subset-false", "query for subset %x returned %d %d", mask, ok1, ok2);
         Q f = full(r, d, q, scaled);
         Vec* all[12] = {&f.x, &f.zl, &f.zu, &f.g, &f.lam, &f.vl, &f.vu, &f.cl, &f.cu, &f.gr, &f.vg, &f.cg};
         static const char* nm[12] = {"x", "z_L", "z_U", "g", "lambda", "x_L_violation", "x_U_violation", "compl_x_L", "compl_x_U", "grad_lag_x", "constraint_violation", "compl_g"};
         for( int k = 0; k < 12; ++k )
         {
            PBT_CHECK(c, buf[k].back() == -777.25, "overrun", "request for subset %x wrote beyond the end of %s", mask, nm[k]);
            buf[k].pop_back();
            if( ptr[k] && !((k == 1 || k == 2) && !(ptr[1] && ptr[2])) )
               PBT_CHECK(c, eqbits(buf[k], *all[k]), "subset", "request for subset %x gives %s=%s, the full request %s", mask, nm[k], vs(buf[k]).c_str(), vs(*all[k]).c_str());
         }
         // wrong dimensions are refused
         if( rnd() % 4 == 0 )
         {
            bool thrown = false;
            Vec big(n + m + 5, 0.);
            int w = rnd() % 4;
            try
            {
               if( w == 0 )
                  r.get_curr_iterate(d, q, scaled, n + 1, big.data(), NULL, NULL, m, NULL, NULL);
               if( w == 1 )
                  r.get_curr_iterate(d, q, scaled, n, NULL, NULL, NULL, m + 1, big.data(), NULL);
               if( w == 2 )
                  r.get_curr_violations(d, q, scaled, n + 1, big.data(), NULL, NULL, NULL, NULL, m, NULL, NULL);
               if( w == 3 )
                  r.get_curr_violations(d, q, scaled, n, NULL, NULL, NULL, NULL, NULL, m + 1, NULL, big.data());
            }
            catch( IpoptException& )
            {
               thrown = true;
            }
            PBT_CHECK(c, thrown, "dimension", "a query with a wrong dimension (%d) was not refused", w);
         }
      }
      return go;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports, " << nq << " queries\n";
   c.nontrivial = nq > 0;
   for( auto& i : r0.iters )
      if( !(std::fabs(i.obj) < 1e100) )
         return;   // evaluating the functions where they overflow fails, and the failure is passed on through the callback
   PBT_CHECK(c, r.app == r0.app && r.iters.size() == r0.iters.size() && r.nfinal == r0.nfinal && eqbits(r.x, r0.x) && eqbits(r.lam, r0.lam) && eqbits(r.zl, r0.zl) && eqbits(r.zu, r0.zu) && eqbits(r.g, r0.g), "influence",
      "the run with queries ends with %s after %d reports, the one without with %s after %d; x %s vs %s", statname(r.app), (int)r.iters.size(), statname(r0.app), (int)r0.iters.size(), vs(r.x).c_str(), vs(r0.x).c_str());
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P15", "the queries were used in at least one intermediate callback",
      {{"values", f_values, 8000, 600000}, {"subsets", f_subsets, 4000, 300000}}
   };
   return pbt::run_main(argc, argv, ck);
}
