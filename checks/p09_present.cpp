// P09: the result does not depend on how the same problem is written down.
#include "anycase.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static bool same(double a, double b) { return a == b || (a != a && b != b); }
static void compare_bits(Ctx& c, const Outcome& r, const Outcome& q, double sg)
{
   PBT_CHECK(c, r.app == q.app, "status", "%s versus %s", statname(r.app), statname(q.app));
   PBT_CHECK(c, r.iters.size() == q.iters.size(), "iterations", "%d versus %d reports", (int)r.iters.size(), (int)q.iters.size());
   for( size_t k = 0; k < r.iters.size(); ++k )
   {
      const IterInfo& u = r.iters[k], &v = q.iters[k];
      PBT_CHECK(c, u.iter == v.iter && same(u.obj, sg * v.obj) && same(u.inf_pr, v.inf_pr) && same(u.mu, v.mu) && same(u.d_norm, v.d_norm) && same(u.alpha_pr, v.alpha_pr) && same(u.alpha_du, v.alpha_du) && u.ls == v.ls, "trace",
                "report %d differs: objective %.17g vs %.17g, inf_pr %.17g vs %.17g", (int)k, u.obj, v.obj, u.inf_pr, v.inf_pr);
   }
   PBT_CHECK(c, r.nfinal == q.nfinal, "final", "%d versus %d final reports", r.nfinal, q.nfinal);
   if( !r.nfinal || r.x.empty() )
      return;
   PBT_CHECK(c, same(r.obj, sg * q.obj), "obj", "objective %.17g versus %.17g", r.obj, q.obj);
   for( size_t i = 0; i < r.x.size(); ++i )
      PBT_CHECK(c, same(r.x[i], q.x[i]), "x", "x%d %.17g versus %.17g", (int)i, r.x[i], q.x[i]);
   for( size_t j = 0; j < r.g.size(); ++j )
   {
      PBT_CHECK(c, same(r.g[j], q.g[j]), "g", "g%d %.17g versus %.17g", (int)j, r.g[j], q.g[j]);
      PBT_CHECK(c, same(r.lam[j], sg * q.lam[j]), "lambda", "lambda%d %.17g versus %.17g", (int)j, r.lam[j], q.lam[j]);
   }
}
// index style: bitwise the same
static void f_style(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL, c.src.flip(0.3) ? 0.2 : 0.05);
   c.desc << a.show();
   a.pres.fortran = false;
   SmartPtr<RecTNLP> t = a.make();
   Outcome r = solve(GetRawPtr(t), a.o);
   Any b = a;
   b.pres.fortran = true;
   SmartPtr<RecTNLP> u = b.make();
   Outcome q = solve(GetRawPtr(u), b.o);
   c.desc << " -> " << statname(r.app) << ", with Fortran indices " << statname(q.app) << "\n";
   c.label(statname(r.app));
   c.nontrivial = a.p.m > 0 && r.iters.size() > 2;
   compare_bits(c, r, q, 1.);
   for( size_t i = 0; i < r.zl.size(); ++i )
      PBT_CHECK(c, same(r.zl[i], q.zl[i]) && same(r.zu[i], q.zu[i]), "z", "z%d %.17g %.17g versus %.17g %.17g", (int)i, r.zl[i], r.zu[i], q.zl[i], q.zu[i]);
   for( int k = 0; k < K_COUNT; ++k )
      PBT_CHECK(c, r.calls[k] == q.calls[k], "calls", "%ld versus %ld calls of %s", r.calls[k], q.calls[k], kindname[k]);
}
// maximization by a negative objective scaling factor: bitwise the same up to signs
static void f_sign(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_DT | AF_DEP), c.src.flip(0.3) ? 0.2 : 0.05);
   if( a.o.str("replace_bounds", "no") == "yes" )
      c.discard();
   if( a.faults )
      a.o.S("check_derivatives_for_naninf", "yes");
   if( c.src.flip() )
      a.o.N("obj_scaling_factor", c.src.logreal(0.01, 100));
   double s = a.o.num("obj_scaling_factor", 1.);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Outcome r = solve(GetRawPtr(t), a.o);
   Any b = a;
   b.p.f.c0 = -b.p.f.c0;
   for( auto& k : b.p.f.t )
      k.c = -k.c;
   b.o.N("obj_scaling_factor", -s);
   SmartPtr<RecTNLP> u = b.make();
   // warm start multipliers belong to the scaled problem
   for( double& v : u->start_lam )
      v = -v;
   for( double& v : u->start_zl )
      v = -v;
   for( double& v : u->start_zu )
      v = -v;
   Outcome q = solve(GetRawPtr(u), b.o);
   c.desc << " -> " << statname(r.app) << ", as maximization " << statname(q.app) << "\n";
   c.label(statname(r.app));
   c.nontrivial = r.iters.size() > 2;
   if( a.faults && r.app == q.app && r.app == Invalid_Number_Detected )
      return;
   compare_bits(c, r, q, -1.);
   for( size_t i = 0; i < r.zl.size(); ++i )
   {
      if( a.p.fixed(i) )
         continue;
      PBT_CHECK(c, same(r.zl[i], -q.zl[i]) && same(r.zu[i], -q.zu[i]), "z", "z%d %.17g %.17g versus %.17g %.17g", (int)i, r.zl[i], r.zu[i], q.zl[i], q.zu[i]);
   }
   for( int k = 0; k < K_COUNT; ++k )
      PBT_CHECK(c, r.calls[k] == q.calls[k], "calls", "%ld versus %ld calls of %s", r.calls[k], q.calls[k], kindname[k]);
}
static bool close(double a, double b, double tol, double mag) { return std::fabs(a - b) <= tol * std::max(mag, std::max(std::fabs(a), std::fabs(b))); }
static void compare_known(Ctx& c, const Problem& p, const Outcome& r, const char* what)
{
   double cx, cy;
   known_cond(p, cx, cy);
   double xt = 2e-5 * cx, yt = 2e-4 * cy;
   double xm = 1 + maxabs(p.xs), ym = 1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu);
   PBT_CHECK(c, r.app == Solve_Succeeded, "not-solved", "%s: %s", what, statname(r.app));
   PBT_CHECK(c, maxdiff(r.x, p.xs) <= xt * xm, "kx", "%s: x=%s instead of %s", what, vs(r.x).c_str(), vs(p.xs).c_str());
   PBT_CHECK(c, std::fabs(r.obj - p.fs) <= xt * (ym * p.n + std::fabs(p.fs)), "kf", "%s: objective %.12g instead of %.12g", what, r.obj, p.fs);
   PBT_CHECK(c, maxdiff(r.lam, p.lam) <= yt * ym, "klambda", "%s: lambda=%s instead of %s", what, vs(r.lam).c_str(), vs(p.lam).c_str());
   PBT_CHECK(c, maxdiff(r.zl, p.zl) <= yt * ym && maxdiff(r.zu, p.zu) <= yt * ym, "kz", "%s: z=%s/%s instead of %s/%s", what, vs(r.zl).c_str(), vs(r.zu).c_str(), vs(p.zl).c_str(), vs(p.zu).c_str());
}
static Opts few_opts(Ctx& c)
{
   Opts o = base_opts();
   if( c.src.flip(0.3) )
      o.S("mu_strategy", "adaptive");
   if( c.src.flip(0.3) )
      o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.3) )
   {
      static const char* t[] = {"make_parameter", "make_constraint"};
      o.S("fixed_variable_treatment", t[c.src.below(2)]);
   }
   if( c.src.flip(0.1) )
      o.S("recalc_y", "yes");
   return o;
}
// reported numbers of the first iterations agree up to rounding
static void compare_start(Ctx& c, const Outcome& r, const Outcome& q)
{
   for( size_t k = 0; k < std::min(r.iters.size(), q.iters.size()) && k < 3; ++k )
   {
      const IterInfo& u = r.iters[k], &v = q.iters[k];
      double t = k == 0 ? 1e-9 : k == 1 ? 1e-6 : 1e-4;
      bool ok = close(u.obj, v.obj, t, 1e-2) && close(u.inf_pr, v.inf_pr, t, 1e-2) && close(u.inf_du, v.inf_du, t, 1) && (k == 0 || close(u.d_norm, v.d_norm, t, 1e-2));
      if( k > 0 && u.ls != v.ls )
         return;
      PBT_CHECK(c, ok, "first-reports", "report %d: objective %.12g vs %.12g, inf_pr %.12g vs %.12g, inf_du %.12g vs %.12g, step %.12g vs %.12g", (int)k, u.obj, v.obj, u.inf_pr, v.inf_pr, u.inf_du, v.inf_du, u.d_norm, v.d_norm);
   }
}
static Problem genp(Ctx& c)
{
   GenCfg g;
   g.nmax = c.src.flip(0.15) ? 15 : 7;
   g.mmax = g.nmax > 7 ? 10 : 5;
   g.fixed = c.src.flip(0.3);
   return gen_convex(c, g);
}
// gradient-based scaling looks at the single entries: duplicates change the scaling
static bool dups(const Pres& p)
{
   for( auto& v : {&p.jac, &p.hess} )
      for( size_t i = 0; i < v->size(); ++i )
         for( size_t j = 0; j < i; ++j )
            if( (*v)[i].r == (*v)[j].r && (*v)[i].c == (*v)[j].c )
               return true;
   return false;
}
// entries in another order or triangle, duplicates, explicit zeros
static void f_entries(Ctx& c)
{
   Problem p = genp(c);
   Opts o = few_opts(c);
   Pres pr = gen_pres(c, p);
   c.desc << p.show() << o.show() << "\n jac entries:";
   for( auto& e : pr.jac )
      c.desc << pbt::fmt(" (%d,%d)*%g", e.r, e.c, e.w);
   c.desc << "\n hess entries:";
   for( auto& e : pr.hess )
      c.desc << pbt::fmt(" (%d,%d)*%g", e.r, e.c, e.w);
   c.desc << "\n";
   SmartPtr<RecTNLP> a = new RecTNLP(p, plain_pres(p)), b = new RecTNLP(p, pr);
   Outcome r = solve(GetRawPtr(a), o), q = solve(GetRawPtr(b), o);
   c.nontrivial = p.m > 0 && p.n > 1;
   compare_known(c, p, r, "plain");
   compare_known(c, p, q, "rewritten");
   if( o.str("nlp_scaling_method", "x") == "none" || !dups(pr) )
      compare_start(c, r, q);
}
// variables and constraints in another order
static void f_perm(Ctx& c)
{
   Problem p = genp(c);
   Opts o = few_opts(c);
   std::vector<int> pv = c.src.perm(p.n), pc = c.src.perm(p.m);
   Problem w = permute(p, pv, pc);
   c.desc << p.show() << o.show() << "\n permuted:\n" << w.show();
   bool id = true;
   for( int i = 0; i < p.n; ++i )
      id = id && pv[i] == i;
   c.nontrivial = !id && p.m > 0;
   Pres pr = c.src.flip() ? gen_pres(c, w) : plain_pres(w);
   SmartPtr<RecTNLP> a = new RecTNLP(p, plain_pres(p)), b = new RecTNLP(w, pr);
   Outcome r = solve(GetRawPtr(a), o), q = solve(GetRawPtr(b), o);
   compare_known(c, p, r, "original");
   compare_known(c, w, q, "permuted");
   if( o.str("nlp_scaling_method", "x") == "none" || !dups(pr) )
      compare_start(c, r, q);
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P09", "the solve makes at least two iterations, problem has constraints, (perm) permutation is not the identity",
      {{"style", f_style, 6000, 400000}, {"sign", f_sign, 6000, 400000}, {"entries", f_entries, 5000, 500000}, {"perm", f_perm, 5000, 500000}}
   };
   return pbt::run_main(argc, argv, k);
}
