// P18: finite-difference derivatives stand in for exact ones.
#include "anycase.hpp"
#include "adapter.hpp"
#include "IpIpoptData.hpp"
#include "IpOrigIpoptNLP.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include <algorithm>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

/** bound for the rounding error of an evaluation */
static double roundoff(const Func& F, const double* x)
{
   double r = std::fabs(F.c0);
   for( auto& t : F.t )
   {
      double z = t.b, za = std::fabs(t.b);
      for( auto& a : t.a )
      {
         z += a.second * x[a.first];
         za += std::fabs(a.second * x[a.first]);
      }
      Func G;
      Term u = t;
      u.a = {{0, 1.}};
      u.b = 0;
      G.t.push_back(u);
      double d = 0;
      G.grad(&z, &d);
      r += std::fabs(t.c) + std::fabs(G.val(&z)) + std::fabs(d) * za;
   }
   return 4e-16 * (4 + F.t.size()) * r;
}

struct Ref
{
   double d0, err;
};
/** derivative and how far a finite difference may be from it */
static Ref deriv(const Func& F, const Vec& x, int i, double pert)
{
   int n = x.size();
   double h = pert * std::max(1., std::fabs(x[i]));
   Vec g(n, 0.);
   F.grad(x.data(), g.data());
   Ref r = {g[i], 0};
   double noise = roundoff(F, x.data());
   for( double f : {-1., -.5, .5, 1.} )
   {
      Vec y = x, gy(n, 0.);
      y[i] += f * h;
      F.grad(y.data(), gy.data());
      r.err = std::max(r.err, std::fabs(gy[i] - g[i]));
      noise = std::max(noise, roundoff(F, y.data()));
   }
   r.err = 1.5 * r.err + 2 * noise / h + (1e-12 + 4e-16 * std::fabs(x[i]) / h) * std::fabs(g[i]);
   if( !(r.err < 1e300) )
      r.err = INFINITY;
   return r;
}

static void values(Ctx& c, bool convex)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, convex ? AF_CONVEXONLY | AF_FIXEDTREAT : AF_STOP | AF_INFEAS | AF_FIXEDTREAT | AF_LIMITS | AF_WARM, convex ? 0. : 0.08);
   std::vector<std::pair<int, int> > q;
   for( auto& e : a.pres.jac )
      q.push_back(std::make_pair(e.r, e.c));
   std::sort(q.begin(), q.end());
   bool dup = std::unique(q.begin(), q.end()) != q.end();
   // repeated entries are refused: write the structure down plainly, weights 1
   if( dup && !s.flip(0.1) )
   {
      a.pres.jac = plain_pres(a.p).jac;
      if( s.flip() )
         std::reverse(a.pres.jac.begin(), a.pres.jac.end());
      dup = false;
   }
   int w = s.integer(0, 2);
   bool fg = w != 1, fj = w != 0;
   // entries with a weight are not what the user declares
   if( !dup )
      for( auto& e : a.pres.jac )
         e.w = 1;
   double pert = 1e-7;
   if( fg )
      a.o.S("gradient_approximation", "finite-difference-values");
   if( fj )
      a.o.S("jacobian_approximation", "finite-difference-values");
   if( s.flip(0.3) )
      a.o.N("findiff_perturbation", pert = s.flip() ? 1e-6 : 1e-8);
   a.o.S("nlp_scaling_method", "none");
   double tol = 1e-8;
   if( convex )
      a.o.N("tol", tol = 1e-5);
   if( s.flip(0.3) )
      a.o.N("bound_relax_factor", 0.);
   bool relaxed = a.o.num("bound_relax_factor", 1e-8) > 0;
   SmartPtr<RecTNLP> t = a.make();
   t->derivs_forbidden_g = false;
   t->derivs_forbidden_j = false;
   Problem& p = a.p;
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   bool param = ft.compare(0, 14, "make_parameter") == 0;
   c.desc << a.show() << "\n" << (fg ? "gradient " : "") << (fj ? "Jacobian " : "") << "by differences " << pert << "\n";
   auto narrow = [&](int i)
   {
      return !(p.xu[i] - p.xl[i] > 4 * pert * std::max(1., std::max(std::fabs(p.xl[i]), std::fabs(p.xu[i]))));
   };
   int nused = 0;
   double obs = a.o.num("obj_scaling_factor", 1.);
   double slop = std::max(1e-9, 1e3 * a.o.num("slack_move", 1.81e-12));
   t->on_eval = [&](int kind, const double* x)
   {
      if( (kind == K_F || kind == K_G) && !relaxed && x && !t->out.iters.empty() )
         for( int i = 0; i < p.n; ++i )
            if( !narrow(i) && std::fabs(x[i]) < 1e15 )
               PBT_CHECK(c, x[i] >= p.xl[i] - slop * std::max(1., std::fabs(p.xl[i])) && x[i] <= p.xu[i] + slop * std::max(1., std::fabs(p.xu[i])), "bounds", "%s evaluated at x[%d] = %.17g outside of [%.17g,%.17g]", kindname[kind], i, x[i], p.xl[i], p.xu[i]);
   };
   auto prev = t->on_iter;
   bool magic = a.o.find("magic_steps") != nullptr;
   t->on_iter = [&](RecTNLP & u, const IterInfo & it, const IpoptData * data, IpoptCalculatedQuantities * cq) -> bool
   {
      if( it.mode == RegularMode && data && cq && !magic )
      {
         Vec xi = dvals(*data->curr()->x());
         std::vector<int> var, ec, ic;
         for( int i = 0; i < p.n; ++i )
            if( !param || !p.fixed(i) )
               var.push_back(i);
         for( int j = 0; j < p.m; ++j )
            (p.gl[j] == p.gu[j] ? ec : ic).push_back(j);
         Vec x = p.xl;
         PBT_CHECK(c, xi.size() == var.size(), "dims", "%d internal variables, expected %d", (int)xi.size(), (int)var.size());
         bool fin = true;
         for( size_t k = 0; k < var.size(); ++k )
         {
            x[var[k]] = xi[k];
            fin = fin && std::fabs(xi[k]) < 1e8;
         }
         if( fin && u.faulted == 0 )
         {
            nused++;
            SmartPtr<const Vector> g = cq->curr_grad_f();
            Vec gv = dvals(*g);
            for( size_t k = 0; k < var.size(); ++k )
            {
               int i = var[k];
               if( p.fixed(i) )
                  continue;
               Ref r = deriv(p.f, x, i, pert);
               double e = fg ? r.err : 1e-11 * (1 + std::fabs(r.d0)) + 1e-8 * roundoff(p.f, x.data());
               if( std::isfinite(r.err) )
                  PBT_CHECK(c, std::fabs(gv[k] - obs * r.d0) <= std::fabs(obs) * e, "gradient", "iteration %d: gradient entry %d is %.17g, true value %.17g, error bound %g", it.iter, i, gv[k], obs * r.d0, e);
            }
            for( int eq = 0; eq < 2; ++eq )
            {
               SmartPtr<const Matrix> J = eq ? cq->curr_jac_c() : cq->curr_jac_d();
               std::vector<int>& row = eq ? ec : ic;
               SmartPtr<Vector> e = data->curr()->x()->MakeNew();
               SmartPtr<Vector> y = eq ? data->curr()->y_c()->MakeNew() : data->curr()->y_d()->MakeNew();
               if( (int)row.size() > y->Dim() )
                  continue;    // dependent rows removed
               for( size_t k = 0; k < var.size() && !row.empty(); ++k )
               {
                  int i = var[k];
                  if( p.fixed(i) )
                     continue;
                  e->Set(0.);
                  dynamic_cast<DenseVector&>(*e).Values()[k] = 1.;
                  J->MultVector(1., *e, 0., *y);
                  Vec col = dvals(*y);
                  for( size_t j = 0; j < row.size(); ++j )
                  {
                     bool have = false;
                     for( auto& en : a.pres.jac )
                        have = have || (en.r == row[j] && en.c == i);
                     if( !have )
                     {
                        PBT_CHECK(c, col[j] == 0., "structure", "iteration %d: entry (%d,%d), not declared, is %g", it.iter, row[j], i, col[j]);
                        continue;
                     }
                     Ref r = deriv(p.g[row[j]], x, i, pert);
                     double er = fj ? r.err : 1e-11 * (1 + std::fabs(r.d0)) + 1e-8 * roundoff(p.g[row[j]], x.data());
                     if( std::isfinite(r.err) )
                        PBT_CHECK(c, std::fabs(col[j] - r.d0) <= er, "jacobian", "iteration %d: Jacobian entry (%d,%d) is %.17g, true value %.17g, error bound %g", it.iter, row[j], i, col[j], r.d0, er);
                  }
               }
            }
         }
      }
      return prev ? prev(u, it, data, cq) : true;
   };
   t->out = nlp::solve(GetRawPtr(t), a.o);
   Outcome& r = t->out;
   c.label(statname(r.app));
   c.nontrivial = nused > 1;
   bool hasj = !a.pres.jac.empty();
   if( fj && dup )
   {
      PBT_CHECK(c, r.app == Invalid_Problem_Definition || r.app == Unrecoverable_Exception || r.app == Not_Enough_Degrees_Of_Freedom || r.app == Invalid_Option, "dup", "finite differences with repeated entries: %s", statname(r.app));
      return;
   }
   if( fg && !(p.nfixed() > 0 && ft == "make_parameter") )
      PBT_CHECK(c, r.calls[K_GRAD] == 0, "called", "eval_grad_f was called %ld times", r.calls[K_GRAD]);
   if( fg )
      PBT_CHECK(c, r.calls[K_GRAD] <= 1, "called", "eval_grad_f was called %ld times", r.calls[K_GRAD]);
   if( fj && hasj )
      PBT_CHECK(c, r.calls[K_JAC] <= (a.o.find("dependency_detector") ? 1 : 0), "called", "eval_jac_g was called for values %ld times", r.calls[K_JAC]);
   // the solution
   if( convex && p.known && p.nfixed() == 0 )
   {
      bool calm = true;
      for( int i = 0; i < p.n; ++i )
         calm = calm && std::fabs(p.xs[i]) < 100 && std::fabs(p.zl[i]) + std::fabs(p.zu[i]) < 100;
      for( double l : p.lam )
         calm = calm && std::fabs(l) < 100;
      c.label(calm ? (r.okish() ? "calm ok" : "calm failed") : "wild");
   }
   if( r.app == Solve_Succeeded && t->faulted == 0 && !magic && obs > 0 && r.have_stats && a.o.str("honor_original_bounds", "no") == "no" )
   {
      // stationarity with the error of differences; tolerances as in the run
      double yz = 0, cnt = p.n + p.m;
      for( auto v : {&r.lam, &r.zl, &r.zu} )
         for( double q1 : *v )
            yz += std::fabs(q1);
      double tl = a.o.num("tol", 1e-8), sd = std::max(a.o.num("s_max", 100.), yz) / a.o.num("s_max", 100.);
      if( a.o.find("mu_target") || a.o.find("tol") == nullptr || convex )
         for( int i = 0; i < p.n; ++i )
         {
            if( p.fixed(i) )
               continue;
            Ref d = deriv(p.f, r.x, i, pert);
            double res = d.d0 - r.zl[i] + r.zu[i], e = fg ? d.err : 0, mag = std::fabs(d.d0) + std::fabs(r.zl[i]) + std::fabs(r.zu[i]);
            for( int j = 0; j < p.m; ++j )
            {
               Ref dj = deriv(p.g[j], r.x, i, pert);
               res += r.lam[j] * dj.d0;
               mag += std::fabs(r.lam[j] * dj.d0);
               if( fj )
                  e += std::fabs(r.lam[j]) * dj.err;
            }
            if( std::isfinite(e) && mag < 1e8 )
               PBT_CHECK(c, std::fabs(res) <= e + tl * sd * std::max(1., cnt) / std::fabs(obs) + 1e-12 * mag, "stationary", "Lagrangian gradient at variable %d is %g, more than the error of differences (%g) and the tolerance %g explain", i, res, e, tl * sd);
         }
   }
}
static void anyf(Ctx& c) { values(c, false); }
static void conv(Ctx& c) { values(c, true); }

int main(int argc, char** argv)
{
   pbt::Check k = {"P18", "at least two iterates with approximated derivatives were compared", {{"any", anyf, 5000, 150000}, {"convex", conv, 5000, 150000}}};
   return pbt::run_main(argc, argv, k);
}
