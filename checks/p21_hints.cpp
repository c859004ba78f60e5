// P21: truthful structure hints never change the result, and the derivatives they cover are asked for once.
#include "anycase.hpp"
#include "twin.hpp"
#include <algorithm>
#include <set>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void simplify(Func& f, bool quad)
{
   for( Term& t : f.t )
   {
      if( quad && (t.kind == SQ || t.kind != LIN) )
         t.kind = SQ;
      else
         t.kind = LIN;
   }
}
static std::set<int> nonlinset(const Problem& p)
{
   std::set<int> r;
   auto go = [&](const Func & f)
   {
      for( const Term& t : f.t )
         if( t.kind != LIN )
            for( auto& q : t.a )
               r.insert(q.first);
   };
   go(p.f);
   for( auto& g : p.g )
      go(g);
   return r;
}
static void f_twin(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL & ~(AF_STOP | AF_FAULTS | AF_FD | AF_DT | AF_HINTS), c.src.flip(0.3) ? 0.2 : 0.05);
   Problem& p = a.p;
   // make some of the hints true
   bool heq = c.src.flip(), hin = c.src.flip(), hf = c.src.flip(0.4), hq = c.src.flip(0.4);
   if( hq )
      heq = hin = true;
   p.known = false;
   for( int j = 0; j < p.m; ++j )
      if( p.gl[j] == p.gu[j] ? heq : hin )
         simplify(p.g[j], false);
   if( hf )
      simplify(p.f, false);
   else if( hq )
      simplify(p.f, true);
   bool plain = c.src.flip();
   a.pres = plain ? plain_pres(p) : gen_pres(c, p);
   Opts o = a.o;
   int nh = 0;
   bool ojc = heq && c.src.flip(0.7), ojd = hin && c.src.flip(0.7), og = hf && c.src.flip(0.8), oh = (hq || (heq && hin && hf)) && c.src.flip(0.8);
   if( ojc )
      o.S("jac_c_constant", "yes");
   if( ojd )
      o.S("jac_d_constant", "yes");
   if( og )
      o.S("grad_f_constant", "yes");
   if( oh )
      o.S("hessian_constant", "yes");
   nh = ojc + ojd + og + oh;
   bool lbfgs = o.str("hessian_approximation", "exact") == "limited-memory";
   std::set<int> nl = nonlinset(p);
   std::vector<int> nlv;
   bool list = !lbfgs && c.src.flip(0.3);
   if( list )
   {
      for( int i = 0; i < p.n; ++i )
         if( nl.count(i) || c.src.flip(0.3) )
            nlv.push_back(i);
      nh++;
   }
   int lin = 0;
   while( lin < p.n && !nl.count(lin) )
      ++lin;
   if( !lbfgs && lin && c.src.flip(0.3) )
   {
      o.I("num_linear_variables", c.src.integer(1, lin));
      nh++;
   }
   if( !nh )
      c.discard();
   c.desc << p.show() << o.show() << "\n" << a.note;
   SmartPtr<RecTNLP> t1 = a.make(), t2 = a.make();
   if( list )
   {
      t2->give_nonlin = true;
      t2->nonlin_vars = nlv;
   }
   t1->out = solve(GetRawPtr(t1), a.o);
   t2->out = solve(GetRawPtr(t2), o);
   Outcome& r = t2->out;
   c.desc << " -> " << statname(t1->out.app) << " / with hints " << statname(r.app) << " after " << t1->out.iters.size() << " reports\n";
   c.label(statname(t1->out.app));
   c.nontrivial = t1->out.iters.size() > 1;
   bool resto = false;
   for( auto& i : r.iters )
      resto |= i.mode == RestorationPhaseMode;
   if( resto )
      c.label("with restoration phase");
   // the derivative is asked for once
   if( r.have_stats )
   {
      if( og )
         PBT_CHECK(c, r.ev_g <= 1, "stat-grad", "%d gradient evaluations counted although the gradient is constant", r.ev_g);
      if( ojc && ojd )
         PBT_CHECK(c, r.ev_j <= 1, "stat-jac", "%d Jacobian evaluations counted although the Jacobian is constant", r.ev_j);
      if( oh && !lbfgs )
         PBT_CHECK(c, r.ev_h <= 1 + resto, "stat-hess", "%d Hessian evaluations counted although the Hessian is constant", r.ev_h);
   }
   bool dep = o.find("dependency_detector") != nullptr;
   if( og )
      PBT_CHECK(c, r.calls[K_GRAD] <= 4, "grad", "%ld gradient evaluations although the gradient is constant", r.calls[K_GRAD]);
   bool hase = false, hasi = false;
   for( int j = 0; j < p.m; ++j )
      (p.gl[j] == p.gu[j] ? hase : hasi) = true;
   hase = hase || (p.nfixed() > 0 && o.str("fixed_variable_treatment", "") == "make_constraint");
   if( (ojc || !hase) && (ojd || !hasi) && !dep )
      PBT_CHECK(c, r.calls[K_JAC] <= 5, "jac", "%ld Jacobian evaluations although the Jacobian is constant", r.calls[K_JAC]);
   if( oh && !lbfgs )
      PBT_CHECK(c, r.calls[K_HESS] <= 2 + resto, "hess", "%ld Hessian evaluations although the Hessian is constant", r.calls[K_HESS]);
   // and nothing else changes
   r.ev_g = t1->out.ev_g;
   r.ev_j = t1->out.ev_j;
   r.ev_h = t1->out.ev_h;
   compare(c, "with hints", 0, *t2, *t1, false);
}
/** limited-memory approximation restricted to the nonlinear variables */
static void f_quasi(Ctx& c)
{
   GenCfg g;
   g.nmax = c.src.flip(0.1) ? 15 : 6;
   g.fixed = c.src.flip(0.2);
   Problem p0 = gen_convex(c, g);
   // more linear variables: appended with a strictly active bound, so that the known point remains the only one
   int add = c.src.integer(0, 3);
   for( int k = 0; k < add; ++k )
   {
      int i = p0.n++;
      Term t;
      t.kind = LIN;
      t.c = c.src.nice(0.5, 2);
      t.a.push_back(std::make_pair(i, 1.));
      double b = c.src.nice(-2, 2);
      bool up = c.src.flip();
      if( up )
         t.c = -t.c;
      p0.f.t.push_back(t);
      p0.xl.push_back(up ? -1e20 : b);
      p0.xu.push_back(up ? b : 1e20);
      p0.xs.push_back(b);
      p0.x0.push_back(b + c.src.nice(-2, 2));
      p0.zl.push_back(up ? 0 : t.c);
      p0.zu.push_back(up ? -t.c : 0);
      p0.fs += t.c * b;
   }
   std::set<int> nl0 = nonlinset(p0);
   std::vector<int> pv = c.src.perm(p0.n), pc = c.src.perm(p0.m);
   bool first = c.src.flip();
   if( first )
      std::stable_sort(pv.begin(), pv.end(), [&](int a, int b) { return nl0.count(a) < nl0.count(b); });
   Problem p = permute(p0, pv, pc);
   std::set<int> nl = nonlinset(p);
   Opts o = base_opts();
   o.S("hessian_approximation", "limited-memory").N("tol", 1e-6);
   if( c.src.flip(0.3) )
      o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.3) )
      o.I("limited_memory_max_history", c.src.integer(1, 10));
   if( c.src.flip(0.2) )
      o.S("limited_memory_update_type", "sr1");
   if( c.src.flip(0.2) )
      o.S("mu_strategy", c.src.flip() ? "monotone" : "adaptive");
   Opts oh = o;
   int lin = 0;
   while( lin < p.n && !nl.count(lin) )
      ++lin;
   SmartPtr<RecTNLP> t1 = new RecTNLP(p, gen_pres(c, p)), t2 = new RecTNLP(p, t1->pres);
   if( c.src.flip() && lin )
      oh.I("num_linear_variables", c.src.integer(1, lin));
   else
   {
      t2->give_nonlin = true;
      for( int i = 0; i < p.n; ++i )
         if( nl.count(i) || c.src.flip(0.15) )
            t2->nonlin_vars.push_back(i);
      if( c.src.flip(0.3) )
      {
         std::vector<int> v, pm = c.src.perm((int)t2->nonlin_vars.size());
         for( int k : pm )
            v.push_back(t2->nonlin_vars[k]);
         t2->nonlin_vars = v;
      }
   }
   c.desc << p.show() << oh.show() << "\n";
   if( t2->give_nonlin )
   {
      c.desc << "nonlinear variables";
      for( int i : t2->nonlin_vars )
         c.desc << " " << i;
      c.desc << "\n";
   }
   Outcome a = solve(GetRawPtr(t1), o), b = solve(GetRawPtr(t2), oh);
   c.desc << " -> " << statname(a.app) << " / with hints " << statname(b.app) << " after " << a.iters.size() << " / " << b.iters.size() << " reports\n";
   c.label(std::string(statname(a.app)) + " / " + statname(b.app));
   c.nontrivial = b.ok() && b.iters.size() > 1 && (int)nl.size() < p.n;
   // with active constraints whose multiplier is zero the distance to the known point is of the order of sqrt(tol)
   double cx, cy;
   known_cond(p, cx, cy);
   double xm = 1 + maxabs(p.xs), ym = 1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu);
   for( Outcome* r : {&a, &b} )
      if( r->ok() )
      {
         const char* w = r == &a ? "without hints" : "with hints";
         PBT_CHECK(c, maxdiff(r->x, p.xs) <= 1e-2 * cx * xm, "x", "%s: x=%s instead of %s", w, vs(r->x).c_str(), vs(p.xs).c_str());
         PBT_CHECK(c, maxdiff(r->lam, p.lam) <= 1e-2 * cy * ym, "lambda", "%s: lambda=%s instead of %s", w, vs(r->lam).c_str(), vs(p.lam).c_str());
         PBT_CHECK(c, maxdiff(r->zl, p.zl) <= 1e-2 * cy * ym && maxdiff(r->zu, p.zu) <= 1e-2 * cy * ym, "z", "%s: z=%s/%s instead of %s/%s", w, vs(r->zl).c_str(), vs(r->zu).c_str(), vs(p.zl).c_str(), vs(p.zu).c_str());
      }
   PBT_CHECK(c, b.app != Infeasible_Problem_Detected && b.app != Diverging_Iterates, "status", "%s for a convex problem with a Slater point", statname(b.app));
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P21", "at least one hint was given and at least one iteration done (quasi: the problem has linear variables and was solved)",
      {{"twin", f_twin, 8000, 500000}, {"quasi", f_quasi, 3000, 200000}}
   };
   return pbt::run_main(argc, argv, ck);
}
