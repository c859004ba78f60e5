#include "anycase.hpp"
#include <algorithm>
namespace nlp
{
using namespace Ipopt;
SmartPtr<RecTNLP> Any::make() const
{
   SmartPtr<RecTNLP> t = new RecTNLP(p, pres);
   for( auto& f : setup )
      f(*t);
   return t;
}
void gen_any(pbt::Ctx& c, Any& a, int fl, double rho)
{
   pbt::Src& s = c.src;
   GenCfg g;
   g.nmin = 1;
   g.nmax = !(fl & AF_SMALL) && s.flip(0.07) ? 20 : 6;
   g.mmax = g.nmax > 6 ? 10 : 4;
   g.fixed = s.flip(0.35);
   int k = (fl & AF_CONVEXONLY) ? 0 : s.weighted({4, 5, (fl & AF_INFEAS) ? 1 : 0});
   a.p = k == 0 ? gen_convex(c, g) : k == 1 ? gen_general(c, g) : gen_infeasible(c, g);
   a.pres = s.flip() ? gen_pres(c, a.p) : plain_pres(a.p);
   a.o = base_opts();
   if( !(fl & AF_NOMASK) )
   {
      int mask = OG_STD | OG_RESTO;
      if( s.flip(0.5) )
         mask |= OG_BOUNDRELAX;
      if( (fl & AF_PENALTY) && s.flip(0.15) )
         mask |= OG_PENALTYLS;
      if( s.flip(0.15) )
         mask |= OG_RISKY;
      if( s.flip(0.04) )
         mask |= OG_MEHROTRA;
      gen_algo_options(c, a.o, mask, rho);
   }
   if( a.p.nfixed() > 0 && (fl & AF_FIXEDTREAT) && s.flip(0.6) )
   {
      static const char* t[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};
      a.o.S("fixed_variable_treatment", t[s.below(4)]);
   }
   a.lbfgs = a.o.str("hessian_approximation", "exact") == "limited-memory";
   bool dup = false;
   {
      std::vector<std::pair<int, int> > q;
      for( auto& e : a.pres.jac )
         q.push_back(std::make_pair(e.r, e.c));
      std::sort(q.begin(), q.end());
      for( size_t i = 1; i < q.size(); ++i )
         dup = dup || q[i] == q[i - 1];
   }
   if( (fl & AF_FD) && s.flip(0.2) )
   {
      int w = s.integer(0, 2);
      if( w != 1 )
      {
         a.o.S("gradient_approximation", "finite-difference-values");
         a.fd_grad = true;
      }
      if( w != 0 && !dup )
      {
         a.o.S("jacobian_approximation", "finite-difference-values");
         a.fd_jac = true;
      }
   }
   if( (fl & AF_DT) && s.flip(0.12) )
   {
      static const char* t[] = {"first-order", "second-order", "only-second-order"};
      a.o.S("derivative_test", t[s.below(3)]);
      a.dt = true;
   }
   if( (fl & AF_DEP) && s.flip(0.1) )
   {
      a.o.S("dependency_detector", "mumps");
      if( s.flip(0.3) )
         a.o.S("dependency_detection_with_rhs", "yes");
   }
   if( (fl & AF_USERSCALE) && s.flip(0.2) )
   {
      a.userscale = true;
      a.o.S("nlp_scaling_method", "user-scaling");
      double os = s.logreal(0.05, 20);
      bool ux = s.flip(0.7), ug = s.flip(0.7);
      Vec xs, gs;
      for( int i = 0; i < a.p.n; ++i )
         xs.push_back(ux ? s.logreal(0.1, 10) : 1);
      for( int j = 0; j < a.p.m; ++j )
         gs.push_back(ug ? s.logreal(0.1, 10) : 1);
      a.note += pbt::fmt(" user scaling: obj %g x %s g %s\n", os, vs(xs).c_str(), vs(gs).c_str());
      a.setup.push_back([ = ](RecTNLP & t)
      {
         t.give_scaling = true;
         t.obj_scaling = os;
         t.use_x_scaling = ux;
         t.use_g_scaling = ug;
         t.x_scaling = xs;
         t.g_scaling = gs;
      });
   }
   if( (fl & AF_WARM) && s.flip(0.12) )
   {
      a.warm = true;
      a.o.S("warm_start_init_point", "yes");
      Vec lam, zl, zu;
      for( int j = 0; j < a.p.m; ++j )
         lam.push_back(s.nice(-3, 3));
      for( int i = 0; i < a.p.n; ++i )
      {
         zl.push_back(std::fabs(s.nice(-2, 2)));
         zu.push_back(std::fabs(s.nice(-2, 2)));
      }
      a.note += pbt::fmt(" warm start lam %s zl %s zu %s\n", vs(lam).c_str(), vs(zl).c_str(), vs(zu).c_str());
      a.setup.push_back([ = ](RecTNLP & t)
      {
         t.start_lam = lam;
         t.start_zl = zl;
         t.start_zu = zu;
      });
   }
   if( (fl & AF_HINTS) && s.flip(0.1) )
   {
      // truthful hints
      bool alleqlin = true, allinlin = true;
      for( int j = 0; j < a.p.m; ++j )
         (a.p.gl[j] == a.p.gu[j] ? alleqlin : allinlin) &= a.p.g[j].linear();
      if( alleqlin )
         a.o.S("jac_c_constant", "yes");
      if( allinlin )
         a.o.S("jac_d_constant", "yes");
      if( a.p.f.linear() )
         a.o.S("grad_f_constant", "yes");
   }
   if( (fl & AF_LIMITS) && s.flip(0.3) )
      a.o.I("max_iter", s.integer(0, 12));
   else
      a.o.I("max_iter", 150);
   if( (fl & AF_LIMITS) && s.flip(0.1) )
      a.o.N("diverging_iterates_tol", 20);
   if( s.flip(0.2) )
      a.o.N("tol", s.flip() ? 1e-4 : 1e-10);
   if( (fl & AF_STOP) && s.flip(0.12) )
   {
      int at = s.integer(0, 8);
      a.stop_at = at;
      a.note += pbt::fmt(" user stops at iteration report %d\n", at);
      a.setup.push_back([at](RecTNLP & t)
      {
         auto prev = t.on_iter;
         t.on_iter = [at, prev](RecTNLP & r, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * q)
         {
            bool ok = prev ? prev(r, i, d, q) : true;
            return ok && (int)r.out.iters.size() - 1 < at;
         };
      });
   }
   if( (fl & AF_FAULTS) && s.flip(0.25) )
   {
      a.faults = true;
      struct FD_ { int kind; long at, len; int f; };
      std::vector<FD_> fs;
      int nf = s.integer(1, 3);
      bool naninf = false;   // infinite or undefined matrix entries are only detected with check_derivatives_for_naninf
      for( int q = 0; q < nf; ++q )
      {
         static const int kinds[] = {K_F, K_G, K_GRAD, K_JAC, K_HESS};
         static const int what[] = {F_FALSE, F_NAN, F_INF, F_NINF, F_NAN1};
         FD_ d = {kinds[s.below(5)], (long)s.integer(0, 14), (long)s.integer(1, 3), what[s.below(5)]};
         if( d.f != F_FALSE && (d.kind == K_JAC || d.kind == K_HESS || (a.fd_jac && d.kind == K_G)) )
            naninf = true;
         fs.push_back(d);
         a.note += pbt::fmt(" fault %d in %s calls %ld..%ld\n", d.f, kindname[d.kind], d.at, d.at + d.len - 1);
      }
      if( naninf )
         a.o.S("check_derivatives_for_naninf", "yes");
      a.setup.push_back([fs](RecTNLP & t)
      {
         t.fault = [fs](int kind, long count, const double*) -> int
         {
            for( auto& d : fs )
               if( d.kind == kind && count >= d.at && count < d.at + d.len )
                  return d.f;
            return F_NONE;
         };
      });
   }
   bool fh = a.lbfgs && !a.dt, fg = a.fd_grad && !a.dt, fj = a.fd_jac && !a.dt;
   a.setup.push_back([ = ](RecTNLP & t)
   {
      t.derivs_forbidden_h = fh;
      t.derivs_forbidden_g = fg;
      t.derivs_forbidden_j = fj;
   });
}
}
