// P06: functions are evaluated only inside the (relaxed) variable bounds.
#include "anycase.hpp"
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void monitor(Ctx& c, Any& a, RecTNLP& t, double brf, double slackmove, double cvt)
{
   const Problem& p = a.p;
   bool mc = a.o.str("fixed_variable_treatment", "make_parameter") == "make_constraint";
   bool rb = a.o.str("fixed_variable_treatment", "make_parameter") == "relax_bounds";
   Vec xs(p.n, 1.);
   for( int i = 0; i < p.n; ++i )
      if( a.userscale && t.use_x_scaling )
         xs[i] = std::fabs(t.x_scaling[i]);
   Vec lo(p.n), up(p.n), per(p.n), start(p.n);
   for( int i = 0; i < p.n; ++i )
   {
      double rl = std::min(cvt, brf * std::max(1., std::fabs(p.xl[i])));
      double ru = std::min(cvt, brf * std::max(1., std::fabs(p.xu[i])));
      double rnd = 4e-16;
      lo[i] = p.xl[i] <= -1e19 ? -INFINITY : p.xl[i] - rl - rnd * std::max(brf > 0 ? 1. : 0., std::fabs(p.xl[i]));
      up[i] = p.xu[i] >= 1e19 ? INFINITY : p.xu[i] + ru + rnd * std::max(brf > 0 ? 1. : 0., std::fabs(p.xu[i]));
      if( brf == 0. && xs[i] == 1. )
      {
         lo[i] = p.xl[i] <= -1e19 ? -INFINITY : p.xl[i];
         up[i] = p.xu[i] >= 1e19 ? INFINITY : p.xu[i];
      }
      per[i] = 2 * slackmove * std::max(1. / xs[i], std::max(std::fabs(p.xl[i]) > 1e19 ? 0. : std::fabs(p.xl[i]), std::fabs(p.xu[i]) > 1e19 ? 0. : std::fabs(p.xu[i])));
      start[i] = p.fixed(i) && !mc && !rb ? p.xl[i] : p.x0[i];
   }
   std::shared_ptr<long> nout(new long(0));
   RecTNLP* pt = &t;
   auto prev = t.on_eval;
   bool fd = a.fd_grad || a.fd_jac;
   t.on_eval = [ =, &p](int kind, const double* x)
   {
      if( kind != K_F && kind != K_G && kind != K_GRAD && kind != K_JAC && kind != K_HESS )
         return;
      if( prev )
         prev(kind, x);
      // the user's own starting point may be looked at before the solver starts iterating
      if( pt->out.iters.empty() )
      {
         bool same = true;
         int ndiff = 0;
         for( int i = 0; i < p.n; ++i )
            if( std::fabs(x[i] - start[i]) > (xs[i] == 1. ? 0. : 4e-16) * std::fabs(start[i]) )
            {
               same = false;
               // finite differences at the starting point
               if( std::fabs(x[i] - start[i]) <= 1.1e-7 * std::max(1., std::fabs(start[i])) )
                  ++ndiff;
               else
                  ndiff += 10;
            }
         if( same || (fd && ndiff == 1) )
            return;
      }
      double nit = pt->out.iters.size() + 2;
      for( int i = 0; i < p.n; ++i )
      {
         if( p.fixed(i) && mc )
            continue;
         if( p.fixed(i) && !rb )
         {
            if( x[i] != p.xl[i] )
               pt->viol("fixed", pbt::fmt("%s at x%d=%.17g, but the variable is fixed at %.17g (report %d)", kindname[kind], i, x[i], p.xl[i], (int)pt->out.iters.size()));
            continue;
         }
         if( !(x[i] >= lo[i] - per[i] * nit && x[i] <= up[i] + per[i] * nit) )
            pt->viol(x[i] == x[i] ? "outside" : "nan", pbt::fmt("%s at x%d=%.17g outside [%.17g,%.17g] by %g (allowed relaxation %g, report %d)", kindname[kind], i, x[i], p.xl[i], p.xu[i],
                     std::max(p.xl[i] - x[i], x[i] - p.xu[i]), brf, (int)pt->out.iters.size()));
      }
   };
   for( int i = 0; i < p.n; ++i )
      if( (p.xl[i] > -1e19 || p.xu[i] < 1e19) && !(p.fixed(i) && mc) )
         c.nontrivial = true;
}
static void one(Ctx& c, bool strict)
{
   Any a;
   int fl = AF_ALL & ~AF_DT;
   gen_any(c, a, fl, c.src.flip(0.3) ? 0.2 : 0.05);
   double brf, sm = 1.82e-12, cvt = 1e-4;
   if( strict )
   {
      brf = 0;
      a.o.N("bound_relax_factor", 0.);
      sm = 0;
      a.o.N("slack_move", 0.);
      // variables fixed stay fixed exactly
      if( a.o.str("fixed_variable_treatment", "make_parameter") == "relax_bounds" )
         c.discard();
   }
   else
   {
      static const double v[] = {1e-8, 1e-6, 1e-4, 1e-2, 0.1};
      if( c.src.flip(0.6) )
         a.o.N("bound_relax_factor", v[c.src.below(5)]);
      if( c.src.flip(0.3) )
         a.o.N("constr_viol_tol", c.src.logreal(1e-9, 1e-2));
      brf = a.o.num("bound_relax_factor", 1e-8);
      cvt = a.o.num("constr_viol_tol", 1e-4);
      sm = a.o.num("slack_move", sm);
   }
   if( a.o.str("replace_bounds", "no") == "yes" )
      c.discard();
   // ranges narrower than the difference step leave no room
   for( int i = 0; i < a.p.n; ++i )
      if( (a.fd_grad || a.fd_jac) && !a.p.fixed(i) && a.p.xu[i] - a.p.xl[i] < 4e-7 * std::max(1., std::fabs(a.p.xl[i])) )
         c.discard();
   // starting points anywhere, also far outside
   if( c.src.flip(0.3) )
      for( int i = 0; i < a.p.n; ++i )
         a.p.x0[i] = c.src.nice(-50, 50);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   monitor(c, a, *t, brf, sm, cvt);
   bool nt = c.nontrivial;
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(statname(r.app));
   c.nontrivial = nt && r.iters.size() > 2;
   // overflows (or a slack of zero without slack_move) may produce an undefined trial point
   bool huge = strict;
   for( auto& i : r.iters )
      huge = huge || !(i.inf_pr < 1e50) || !(i.inf_du < 1e50) || !(std::fabs(i.obj) < 1e50);
   for( auto& v : t->out.viol )
      if( huge && v.first == "nan" )
         c.label("undefined trial point after overflow");
   for( auto& v : t->out.viol )
      if( v.first == "fixed" || v.first == "outside" || (v.first == "nan" && !huge) )
         c.fail(v.first == "nan" && a.o.str("line_search_method", "filter") == "cg-penalty" ? "nan-cg-penalty" : v.first.c_str(), "%s", v.second.c_str());
}
static void f_strict(Ctx& c)
{
   one(c, true);
}
static void f_relaxed(Ctx& c)
{
   one(c, false);
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P06", "the problem has a finite variable bound or a fixed variable and at least two iterations were performed",
      {{"strict", f_strict, 10000, 800000}, {"relaxed", f_relaxed, 10000, 800000}}
   };
   return pbt::run_main(argc, argv, ck);
}
