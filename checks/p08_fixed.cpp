// P08: all treatments of fixed variables describe the same problem.
#include "anycase.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static const char* TREAT[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};

// every treatment finds the known solution and multipliers
static void f_treat(Ctx& c)
{
   GenCfg g;
   g.nmax = c.src.flip(0.1) ? 15 : 7;
   g.mmax = 5;
   g.fixed = true;
   Problem p = gen_convex(c, g);
   int nf = p.nfixed();
   if( nf == 0 )
      c.discard();
   int k = c.src.below(4);
   Opts o = base_opts();
   o.S("fixed_variable_treatment", TREAT[k]);
   bool fd = c.src.flip(0.1);
   if( fd )
      o.S("jacobian_approximation", "finite-difference-values");
   if( c.src.flip(0.25) )
      o.S("mu_strategy", "adaptive");
   if( c.src.flip(0.2) )
      o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.2) )
      o.N("bound_relax_factor", 0.);
   if( c.src.flip(0.2) )
      o.S("honor_original_bounds", "yes");
   Pres pr = c.src.flip(0.3) ? gen_pres(c, p) : plain_pres(p);
   if( fd )
      pr = plain_pres(p);
   // the user's starting point may have other values for the fixed variables
   for( int i = 0; i < p.n; ++i )
      if( p.fixed(i) && c.src.flip(0.5) )
         p.x0[i] = p.xl[i] + c.src.nice(-2, 2);
   c.desc << p.show() << o.show() << "\n";
   SmartPtr<RecTNLP> t = new RecTNLP(p, pr);
   Outcome r = solve(GetRawPtr(t), o);
   c.desc << " -> " << statname(r.app) << "\n";
   c.label(TREAT[k]);
   if( nf == p.n )
   {
      c.label("all variables fixed");
      if( k == 2 )
         c.discard();
   }
   int nfree = p.n - nf, neq = 0;
   for( int j = 0; j < p.m; ++j )
      neq += p.gl[j] == p.gu[j];
   if( k == 2 || nfree < neq || fd )
   {
      // the tiny box of a relaxed fixed variable has poor numerical properties: success is not promised
      if( !r.okish() )
         c.discard();
   }
   else
      PBT_CHECK(c, r.app == Solve_Succeeded, "not-solved", "fixed_variable_treatment=%s ended with %s", TREAT[k], statname(r.app));
   c.nontrivial = p.m > 0 && nf < p.n;
   bool relaxed = k == 2 || (nfree < neq);
   double cx, cy;
   known_cond(p, cx, cy);
   double xt = (fd ? 1e-4 : 2e-5) * cx, yt = (fd ? 1e-3 : 2e-4) * cy;
   // documented scaling of the optimality error by the size of the multipliers
   double sd = 0;
   for( int i = 0; i < p.n; ++i )
      sd += r.zl[i] + r.zu[i];
   sd = relaxed ? std::max(1., sd / 100) : 1.;
   xt *= sd;
   yt *= sd;
   double xm = 1 + maxabs(p.xs), ym = 1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu);
   PBT_CHECK(c, maxdiff(r.x, p.xs) <= xt * xm, "x", "x=%s instead of %s", vs(r.x).c_str(), vs(p.xs).c_str());
   PBT_CHECK(c, std::fabs(r.obj - p.fs) <= xt * (ym * p.n + std::fabs(p.fs)), "f", "objective %.12g instead of %.12g", r.obj, p.fs);
   if( !(r.app == Solve_Succeeded) )
      return;
   if( !(k == 2 || nfree < neq) )
      PBT_CHECK(c, maxdiff(r.lam, p.lam) <= yt * ym, "lambda", "lambda=%s instead of %s", vs(r.lam).c_str(), vs(p.lam).c_str());
   double brf = o.num("bound_relax_factor", 1e-8);
   KKT kk = kkt(p, r.x, r.lam, r.zl, r.zu);
   for( int i = 0; i < p.n; ++i )
   {
      if( !p.fixed(i) )
      {
         if( !relaxed )
            PBT_CHECK(c, std::fabs(r.zl[i] - p.zl[i]) <= yt * ym && std::fabs(r.zu[i] - p.zu[i]) <= yt * ym, "z", "multipliers of x%d: %g %g instead of %g %g", i, r.zl[i], r.zu[i], p.zl[i], p.zu[i]);
         continue;
      }
      double v = p.xl[i], e = std::fabs(r.x[i] - v);
      if( relaxed )
         PBT_CHECK(c, e <= std::max(brf, 1e-8) * 2 * std::max(1., std::fabs(v)) + 1e-9 * std::max(1., std::fabs(v)), "value", "fixed x%d=%.17g instead of %.17g", i, r.x[i], v);
      else if( k == 1 )
         PBT_CHECK(c, e <= 1.1e-8 * std::max(1., std::fabs(v)) + 1e-8, "value", "fixed x%d=%.17g instead of %.17g", i, r.x[i], v);
      else
         PBT_CHECK(c, r.x[i] == v, "value", "fixed x%d=%.17g instead of %.17g", i, r.x[i], v);
      if( k == 3 && !(nfree < neq) )
      {
         PBT_CHECK(c, r.zl[i] == 0. && r.zu[i] == 0., "nodual", "fixed x%d has multipliers %g %g", i, r.zl[i], r.zu[i]);
         continue;
      }
      // full first-order conditions
      if( !fd )
      {
         double mag = ym * p.n * (1 + maxabs(r.x));
         PBT_CHECK(c, std::fabs(kk.r[i]) <= 1e-4 * cy * sd * mag, "dual", "gradient of the Lagrangian of fixed x%d is %g with zl=%g zu=%g", i, kk.r[i], r.zl[i], r.zu[i]);
         if( !relaxed )
            PBT_CHECK(c, std::fabs((r.zl[i] - r.zu[i]) - (p.zl[i] - p.zu[i])) <= yt * ym * 10, "zfix", "zl-zu of fixed x%d is %g instead of %g", i, r.zl[i] - r.zu[i], p.zl[i] - p.zu[i]);
         PBT_CHECK(c, r.zl[i] >= 0 && r.zu[i] >= 0, "sign", "multipliers of fixed x%d are %g %g", i, r.zl[i], r.zu[i]);
         if( !relaxed )
            PBT_CHECK(c, r.zl[i] == 0 || r.zu[i] == 0, "both", "both multipliers of fixed x%d are nonzero: %g %g", i, r.zl[i], r.zu[i]);
      }
   }
}

/** the problem with fixed variables removed by hand */
class HandRed : public TNLP
{
public:
   RecTNLP& in;
   std::vector<int> fr;   // free variables
   Vec full;
   std::vector<int> je, he;  // kept entries
   Outcome& out;
   Vec rx, rzl, rzu;
   std::vector<int> inv;
   HandRed(RecTNLP& r) : in(r), out(r.out)
   {
      full.resize(in.p.n);
      inv.assign(in.p.n, -1);
      for( int i = 0; i < in.p.n; ++i )
         if( in.p.fixed(i) )
            full[i] = in.p.xl[i];
         else
         {
            inv[i] = fr.size();
            fr.push_back(i);
         }
      for( size_t k = 0; k < in.pres.jac.size(); ++k )
         if( inv[in.pres.jac[k].c] >= 0 )
            je.push_back(k);
      for( size_t k = 0; k < in.pres.hess.size(); ++k )
         if( inv[in.pres.hess[k].r] >= 0 && inv[in.pres.hess[k].c] >= 0 )
            he.push_back(k);
   }
   const double* ex(const double* x)
   {
      for( size_t k = 0; k < fr.size(); ++k )
         full[fr[k]] = x[k];
      return full.data();
   }
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) override
   {
      Index a, b, cc, d;
      if( !in.get_nlp_info(a, b, cc, d, st) )
         return false;
      n = fr.size(); m = in.p.m; nj = je.size(); nh = he.size();
      return true;
   }
   bool get_bounds_info(Index, Number* xl, Number* xu, Index m, Number* gl, Number* gu) override
   {
      Vec l(in.p.n), u(in.p.n);
      bool r = in.get_bounds_info(in.p.n, l.data(), u.data(), m, gl, gu);
      for( size_t k = 0; k < fr.size(); ++k )
      {
         xl[k] = l[fr[k]];
         xu[k] = u[fr[k]];
      }
      return r;
   }
   bool get_scaling_parameters(Number& os, bool& ux, Index, Number* xs, bool& ug, Index m, Number* gs) override
   {
      Vec s(in.p.n, 1.);
      bool r = in.get_scaling_parameters(os, ux, in.p.n, s.data(), ug, m, gs);
      for( size_t k = 0; k < fr.size(); ++k )
         xs[k] = s[fr[k]];
      return r;
   }
   bool get_starting_point(Index, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override
   {
      Vec a(in.p.n), l(in.p.n), u(in.p.n);
      bool r = in.get_starting_point(in.p.n, ix, a.data(), iz, l.data(), u.data(), m, il, lam);
      for( size_t k = 0; k < fr.size(); ++k )
      {
         if( ix )
            x[k] = a[fr[k]];
         if( iz )
         {
            zl[k] = l[fr[k]];
            zu[k] = u[fr[k]];
         }
      }
      return r;
   }
   bool eval_f(Index, const Number* x, bool nx, Number& f) override { return in.eval_f(in.p.n, ex(x), nx, f); }
   bool eval_grad_f(Index, const Number* x, bool nx, Number* g) override
   {
      Vec gg(in.p.n);
      bool r = in.eval_grad_f(in.p.n, ex(x), nx, gg.data());
      for( size_t k = 0; k < fr.size(); ++k )
         g[k] = gg[fr[k]];
      return r;
   }
   bool eval_g(Index, const Number* x, bool nx, Index m, Number* g) override { return in.eval_g(in.p.n, ex(x), nx, m, g); }
   bool eval_jac_g(Index, const Number* x, bool nx, Index m, Index, Index* ir, Index* jc, Number* v) override
   {
      int off = in.pres.fortran ? 1 : 0;
      size_t N = in.pres.jac.size();
      if( !v )
      {
         std::vector<Index> a(N), b(N);
         bool r = in.eval_jac_g(in.p.n, NULL, nx, m, N, a.data(), b.data(), NULL);
         for( size_t k = 0; k < je.size(); ++k )
         {
            ir[k] = a[je[k]];
            jc[k] = inv[b[je[k]] - off] + off;
         }
         return r;
      }
      Vec vv(N);
      bool r = in.eval_jac_g(in.p.n, ex(x), nx, m, N, NULL, NULL, vv.data());
      for( size_t k = 0; k < je.size(); ++k )
         v[k] = vv[je[k]];
      return r;
   }
   bool eval_h(Index, const Number* x, bool nx, Number of, Index m, const Number* lam, bool nl, Index, Index* ir, Index* jc, Number* v) override
   {
      int off = in.pres.fortran ? 1 : 0;
      size_t N = in.pres.hess.size();
      if( !v )
      {
         std::vector<Index> a(N), b(N);
         bool r = in.eval_h(in.p.n, NULL, nx, of, m, NULL, nl, N, a.data(), b.data(), NULL);
         for( size_t k = 0; k < he.size(); ++k )
         {
            ir[k] = inv[a[he[k]] - off] + off;
            jc[k] = inv[b[he[k]] - off] + off;
         }
         return r;
      }
      Vec vv(N);
      bool r = in.eval_h(in.p.n, ex(x), nx, of, m, lam, nl, N, NULL, NULL, vv.data());
      for( size_t k = 0; k < he.size(); ++k )
         v[k] = vv[he[k]];
      return r;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number o, Number ip, Number id, Number mu, Number dn, Number rs, Number ad, Number ap, Index ls, const IpoptData* d, IpoptCalculatedQuantities* q) override
   {
      return in.intermediate_callback(mode, iter, o, ip, id, mu, dn, rs, ad, ap, ls, d, q);
   }
   void finalize_solution(SolverReturn st, Index, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g, const Number* lam, Number obj, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      out.nfinal++;
      out.fin = st;
      rx.assign(x, x + fr.size());
      rzl.assign(zl, zl + fr.size());
      rzu.assign(zu, zu + fr.size());
      out.g.assign(g, g + m);
      out.lam.assign(lam, lam + m);
      out.obj = obj;
   }
};
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool same(const Vec& a, const Vec& b)
{
   if( a.size() != b.size() )
      return false;
   for( size_t i = 0; i < a.size(); ++i )
      if( !same(a[i], b[i]) )
         return false;
   return true;
}
static void f_hand(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_FIXEDTREAT | AF_DT | AF_DEP), c.src.flip(0.3) ? 0.2 : 0.05);
   int nf = a.p.nfixed(), neq = 0;
   for( int j = 0; j < a.p.m; ++j )
      neq += a.p.gl[j] == a.p.gu[j];
   if( nf == 0 || nf == a.p.n || a.p.n - nf < neq || a.o.str("replace_bounds", "no") == "yes" )
      c.discard();
   bool nodual = c.src.flip();
   a.o.S("fixed_variable_treatment", nodual ? "make_parameter_nodual" : "make_parameter");
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Outcome r = solve(GetRawPtr(t), a.o);
   SmartPtr<RecTNLP> t2 = a.make();
   SmartPtr<HandRed> h = new HandRed(*t2);
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   a.o.apply(*app->Options());
   app->Options()->SetStringValue("option_file_name", "");
   app->Initialize();
   ApplicationReturnStatus s2 = app->OptimizeTNLP(GetRawPtr(h));
   Outcome& q = t2->out;
   c.desc << " -> " << statname(r.app) << "; reduced by hand: " << statname(s2) << "\n";
   c.nontrivial = r.iters.size() > 2;
   c.label(statname(r.app));
   // computing the multipliers of the fixed variables may hit an injected fault
   if( a.faults && r.app != s2 && r.app == Invalid_Number_Detected )
      c.discard();
   PBT_CHECK(c, r.app == s2, "status", "%s, but reduced by hand %s", statname(r.app), statname(s2));
   PBT_CHECK(c, r.iters.size() == q.iters.size(), "iterations", "%d reports, but reduced by hand %d", (int)r.iters.size(), (int)q.iters.size());
   for( size_t k = 0; k < r.iters.size(); ++k )
   {
      const IterInfo& u = r.iters[k], &v = q.iters[k];
      PBT_CHECK(c, u.iter == v.iter && same(u.obj, v.obj) && same(u.inf_pr, v.inf_pr) && same(u.inf_du, v.inf_du) && same(u.mu, v.mu) && same(u.d_norm, v.d_norm) && same(u.alpha_pr, v.alpha_pr) && same(u.alpha_du, v.alpha_du) && u.ls == v.ls, "trace",
                "report %d differs: objective %.17g vs %.17g, inf_du %.17g vs %.17g", (int)k, u.obj, v.obj, u.inf_du, v.inf_du);
   }
   PBT_CHECK(c, r.nfinal == q.nfinal, "final", "final reports %d vs %d", r.nfinal, q.nfinal);
   if( !r.nfinal || r.x.empty() )
      return;
   PBT_CHECK(c, same(r.g, q.g) && same(r.lam, q.lam) && same(r.obj, q.obj), "result", "constraint values, multipliers or objective differ");
   for( size_t k = 0; k < h->fr.size(); ++k )
   {
      int i = h->fr[k];
      PBT_CHECK(c, same(r.x[i], h->rx[k]) && same(r.zl[i], h->rzl[k]) && same(r.zu[i], h->rzu[k]), "result", "x%d=%.17g z %g %g, by hand %.17g z %g %g", i, r.x[i], r.zl[i], r.zu[i], h->rx[k], h->rzl[k], h->rzu[k]);
   }
   for( int i = 0; i < a.p.n; ++i )
      if( a.p.fixed(i) )
         PBT_CHECK(c, r.x[i] == a.p.xl[i], "fixed", "fixed x%d=%.17g instead of %.17g", i, r.x[i], a.p.xl[i]);
}
// nothing left to optimize, or fewer free variables than equations
static void f_few(Ctx& c)
{
   GenCfg g;
   g.fixed = true;
   g.mmax = 3;
   g.nmax = 4;
   Problem p = gen_general(c, g);
   bool all = c.src.flip(0.7);
   // fix variables at the starting point
   Vec v(p.n);
   int nf = 0;
   for( int i = 0; i < p.n; ++i )
   {
      v[i] = std::min(std::max(p.x0[i], p.xl[i]), p.xu[i]);
      if( all || c.src.flip(0.7) )
         p.xl[i] = p.xu[i] = v[i];
      nf += p.fixed(i);
   }
   bool feas = c.src.flip(0.6);
   double viol = 0;
   for( int j = 0; j < p.m; ++j )
   {
      double gv = p.g[j].val(v.data());
      if( !std::isfinite(gv) )
         c.discard();
      int w = c.src.integer(0, 3);
      if( feas )
      {
         p.gl[j] = w == 0 ? gv : w == 1 ? -INF : gv - 1;
         p.gu[j] = w == 0 ? gv : w == 2 ? INF : gv + 1;
      }
      else
      {
         double d = c.src.flip() ? 1 : -2;
         p.gl[j] = w == 0 ? gv + d : gv + 1;
         p.gu[j] = w == 0 ? gv + d : w == 1 ? INF : gv + 2;
      }
      viol = std::max(viol, std::max(p.gl[j] - gv, gv - p.gu[j]));
   }
   int neq = 0;
   for( int j = 0; j < p.m; ++j )
      neq += p.gl[j] == p.gu[j];
   if( !std::isfinite(p.f.val(v.data())) || nf == 0 )
      c.discard();
   Vec gr(p.n, 0.);
   p.f.grad(v.data(), gr.data());
   int k = c.src.below(4);
   Opts o = base_opts();
   o.S("fixed_variable_treatment", TREAT[k]);
   if( c.src.flip(0.3) )
      o.S("hessian_approximation", "limited-memory");
   if( c.src.flip(0.2) )
      o.S("mu_strategy", "adaptive");
   c.desc << p.show() << o.show() << "\n violation at the fixed point " << viol << "\n";
   SmartPtr<RecTNLP> t = new RecTNLP(p, c.src.flip() ? gen_pres(c, p) : plain_pres(p));
   Outcome r = solve(GetRawPtr(t), o);
   c.desc << " -> " << statname(r.app) << "\n";
   c.label(std::string(TREAT[k]) + (nf == p.n ? " all fixed " : " few ") + statname(r.app));
   c.nontrivial = p.m > 0;
   if( nf < p.n )
   {
      if( r.app == Not_Enough_Degrees_Of_Freedom )
         PBT_CHECK(c, p.n - nf < neq || k == 2, "dof", "Not_Enough_Degrees_Of_Freedom with %d free variables and %d equations", p.n - nf, neq);
      if( r.okish() )
         for( int j = 0; j < p.m; ++j )
         {
            double gv = p.g[j].val(r.x.data());
            PBT_CHECK(c, gv >= p.gl[j] - 1e-3 * (1 + std::fabs(gv)) && gv <= p.gu[j] + 1e-3 * (1 + std::fabs(gv)), "infeasible", "success, but g%d=%g not in [%g,%g]", j, gv, p.gl[j], p.gu[j]);
         }
      return;
   }
   // an infeasible point is not a success
   if( viol > 0.5 && (k == 0 || k == 3) )
      PBT_CHECK(c, r.app == Infeasible_Problem_Detected, "verdict", "all variables are fixed and violate the constraints by %g, but status is %s", viol, statname(r.app));
   if( viol > 0.5 )
      PBT_CHECK(c, !r.okish(), "verdict", "all variables are fixed and violate the constraints by %g, but status is %s", viol, statname(r.app));
   if( viol <= 0 && (k == 0 || k == 3) )
      PBT_CHECK(c, r.app == Solve_Succeeded, "verdict", "all variables are fixed and feasible, but status is %s", statname(r.app));
   if( k == 0 || k == 3 )
   {
      PBT_CHECK(c, r.nfinal == 1, "final", "finalize_solution called %d times", r.nfinal);
      for( int i = 0; i < p.n; ++i )
         PBT_CHECK(c, r.x[i] == v[i], "fixed", "x%d=%.17g instead of %.17g", i, r.x[i], v[i]);
      PBT_CHECK(c, r.obj == p.f.val(v.data()), "obj", "objective %.17g instead of %.17g", r.obj, p.f.val(v.data()));
      for( int j = 0; j < p.m; ++j )
         PBT_CHECK(c, std::fabs(r.g[j] - p.g[j].val(v.data())) <= 1e-14 * (1 + std::fabs(r.g[j]) + std::fabs(p.gl[j])), "g", "g%d=%.17g instead of %.17g", j, r.g[j], p.g[j].val(v.data()));
      if( k == 0 )
      {
         KKT kk = kkt(p, r.x, r.lam, r.zl, r.zu);
         PBT_CHECK(c, kk.dual <= 1e-9 * (1 + maxabs(r.zl) + maxabs(r.zu) + maxabs(gr)), "dual", "gradient of the Lagrangian is %g", kk.dual);
      }
   }
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P08", "problem has constraints and fixed and free variables, solve makes at least two iterations",
      {{"treat", f_treat, 9000, 600000}, {"hand", f_hand, 6000, 400000}, {"few", f_few, 6000, 300000}}
   };
   return pbt::run_main(argc, argv, k);
}
