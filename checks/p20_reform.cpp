// P20: the problem reducer and replace_bounds give the solution of the problem reduced or reformulated by hand.
#include "anycase.hpp"
#include "twin.hpp"
#include "IpTNLPReducer.hpp"
#include "IpIpoptApplication.hpp"
#include <algorithm>
#include <set>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

/** independent reduction: what a user would write by hand around his own problem */
class Hand : public TNLP
{
public:
   SmartPtr<RecTNLP> t;
   std::vector<int> keep;          // kept constraints
   std::set<int> noL, noU, fix;    // 0-based
   std::vector<int> jk;            // kept Jacobian entries
   int m, off, nz;
   Hand(RecTNLP* q, const std::set<int>& skip, const std::set<int>& l, const std::set<int>& u, const std::set<int>& f) : t(q), noL(l), noU(u), fix(f)
   {
      m = q->p.m;
      off = q->pres.fortran;
      for( int i = 0; i < m; ++i )
         if( !skip.count(i) )
            keep.push_back(i);
      nz = q->pres.jac.size();
      for( int k = 0; k < nz; ++k )
         if( !skip.count(q->pres.jac[k].r) )
            jk.push_back(k);
   }
   Vec up(const Number* l) const
   {
      Vec r(m, 0.);
      for( size_t k = 0; k < keep.size(); ++k )
         r[keep[k]] = l[k];
      return r;
   }
   void down(const Vec& full, Number* r) const
   {
      for( size_t k = 0; k < keep.size(); ++k )
         r[k] = full[keep[k]];
   }
   bool get_nlp_info(Index& n, Index& mm, Index& nj, Index& nh, IndexStyleEnum& st) override
   {
      Index a, b;
      if( !t->get_nlp_info(n, a, b, nh, st) )
         return false;
      mm = keep.size();
      nj = jk.size();
      return true;
   }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index, Number* gl, Number* gu) override
   {
      Vec l(m), u(m), s(n);
      if( !t->get_bounds_info(n, xl, xu, m, l.data(), u.data()) )
         return false;
      if( fix.size() )
         t->get_starting_point(n, true, s.data(), false, NULL, NULL, m, false, NULL);
      for( int i : noL )
         xl[i] = -1e300;
      for( int i : noU )
         xu[i] = 1e300;
      for( int i : fix )
         xl[i] = xu[i] = s[i];
      down(l, gl);
      down(u, gu);
      return true;
   }
   bool get_scaling_parameters(Number& o, bool& ux, Index n, Number* x, bool& ug, Index, Number* g) override
   {
      Vec s(m, 1.);
      if( !t->get_scaling_parameters(o, ux, n, x, ug, m, s.data()) )
         return false;
      if( ug )
         down(s, g);
      return true;
   }
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index, bool il, Number* l) override
   {
      Vec s(m, 0.);
      if( !t->get_starting_point(n, ix, x, iz, zl, zu, m, il, s.data()) )
         return false;
      if( il )
         down(s, l);
      return true;
   }
   bool eval_f(Index n, const Number* x, bool nx, Number& f) override
   {
      return t->eval_f(n, x, nx, f);
   }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* f) override
   {
      return t->eval_grad_f(n, x, nx, f);
   }
   bool eval_g(Index n, const Number* x, bool nx, Index, Number* g) override
   {
      Vec s(m, 0.);
      if( !t->eval_g(n, x, nx, m, s.data()) )
         return false;
      down(s, g);
      return true;
   }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index, Index, Index* ir, Index* jc, Number* v) override
   {
      std::vector<Index> r(nz), c(nz);
      Vec w(nz);
      if( !t->eval_jac_g(n, x, nx, m, nz, ir ? r.data() : NULL, ir ? c.data() : NULL, v ? w.data() : NULL) )
         return false;
      for( size_t k = 0; k < jk.size(); ++k )
      {
         if( ir )
         {
            ir[k] = (Index)(std::find(keep.begin(), keep.end(), r[jk[k]] - off) - keep.begin()) + off;
            jc[k] = c[jk[k]];
         }
         if( v )
            v[k] = w[jk[k]];
      }
      return true;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index, const Number* l, bool nl, Index nh, Index* ir, Index* jc, Number* v) override
   {
      Vec s(m, 0.);
      if( v )
         s = up(l);
      return t->eval_h(n, x, nx, of, m, v ? s.data() : NULL, nl, nh, ir, jc, v);
   }
   void finalize_solution(SolverReturn st, Index n, const Number* x, const Number* zl, const Number* zu, Index, const Number*, const Number* l, Number f, const IpoptData* d, IpoptCalculatedQuantities* q) override
   {
      Vec g(m), s = up(l);
      t->eval_g(n, x, true, m, g.data());
      t->finalize_solution(st, n, x, zl, zu, m, g.data(), s.data(), f, d, q);
   }
   bool intermediate_callback(AlgorithmMode md, Index it, Number f, Number ip, Number id, Number mu, Number dn, Number rg, Number ad, Number ap, Index ls, const IpoptData* d, IpoptCalculatedQuantities* q) override
   {
      return t->intermediate_callback(md, it, f, ip, id, mu, dn, rg, ad, ap, ls, d, q);
   }
   Index get_number_of_nonlinear_variables() override
   {
      return t->get_number_of_nonlinear_variables();
   }
   bool get_list_of_nonlinear_variables(Index k, Index* p) override
   {
      return t->get_list_of_nonlinear_variables(k, p);
   }
};

static void run(const SmartPtr<TNLP>& outer, RecTNLP& rec, const Opts& o)
{
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   o.apply(*app->Options());
   app->Initialize("");
   rec.out.app = app->OptimizeTNLP(outer);
   grab_stats(*app, rec.out);
}

static void f_reducer(Ctx& c)
{
   Any a;
   // a wrapper's protocol need not be that of the application: faults are counted per call, not compared
   gen_any(c, a, AF_ALL & ~(AF_FAULTS | AF_DT), c.src.flip(0.3) ? 0.2 : 0.05);
   std::set<int> sg, sl, su, sf;
   double pr = c.src.pick<double>({0, 0.2, 0.5, 1});
   for( int i = 0; i < a.p.m; ++i )
      if( c.src.flip(pr) )
         sg.insert(i);
   double pb = c.src.pick<double>({0, 0.2, 0.5}), pf = c.src.pick<double>({0, 0, 0.15, 0.5});
   for( int i = 0; i < a.p.n; ++i )
   {
      if( c.src.flip(pb) )
         sl.insert(i);
      if( c.src.flip(pb) )
         su.insert(i);
      if( c.src.flip(pf) )
         sf.insert(i);
   }
   // the index lists are given in the index style of the problem, in any order
   auto idx = [&](const std::set<int>& s)
   {
      std::vector<Index> v;
      std::vector<int> base(s.begin(), s.end());
      std::vector<int> pm = c.src.perm((int)base.size());
      for( int k : pm )
         v.push_back(base[k] + a.pres.fortran);
      return v;
   };
   std::vector<Index> ig = idx(sg), il = idx(sl), iu = idx(su), ifx = idx(sf);
   c.desc << a.show() << "skipped constraints";
   for( int i : sg )
      c.desc << " " << i;
   c.desc << ", lower bounds";
   for( int i : sl )
      c.desc << " " << i;
   c.desc << ", upper bounds";
   for( int i : su )
      c.desc << " " << i;
   c.desc << ", fixed";
   for( int i : sf )
      c.desc << " " << i;
   c.desc << (a.pres.fortran ? " (Fortran style)\n" : "\n");
   SmartPtr<RecTNLP> r1 = a.make(), r2 = a.make();
   SmartPtr<TNLP> red = new TNLPReducer(*r1, ig.size(), ig.data(), il.size(), il.data(), iu.size(), iu.data(), ifx.size(), ifx.data());
   // the caller's lists are copied
   for( auto v : {&ig, &il, &iu, &ifx} )
      for( Index& k : *v )
         k = -77;
   run(red, *r1, a.o);
   SmartPtr<TNLP> hand = new Hand(GetRawPtr(r2), sg, sl, su, sf);
   run(hand, *r2, a.o);
   c.desc << " -> " << statname(r1->out.app) << " / by hand " << statname(r2->out.app) << " after " << r1->out.iters.size() << " reports\n";
   c.label(statname(r2->out.app));
   c.nontrivial = r2->out.iters.size() > 1 && sg.size() + sl.size() + su.size() + sf.size() > 0;
   compare(c, "reduced problem", 0, *r1, *r2, false);
   for( auto& v : r1->out.viol )
      PBT_CHECK(c, v.first == "start" || v.first == "bounds" || std::any_of(r2->out.viol.begin(), r2->out.viol.end(), [&](const std::pair<std::string, std::string>& w) { return w.first == v.first; }), "protocol",
                "through the reducer, but not by hand: %s", v.second.c_str());
   // once more with the same reducer object
   if( c.src.flip(0.25) )
   {
      r1->out = Outcome();
      r2->out = Outcome();
      SmartPtr<RecTNLP> n1 = r1, n2 = r2;
      if( a.setup.empty() )
      {
         run(red, *r1, a.o);
         run(hand, *r2, a.o);
         compare(c, "reduced problem, second solve", 1, *r1, *r2, false);
      }
   }
}

// a problem that replace_bounds accepts: one-sided inequalities only
static void onesided(Ctx& c, Problem& p)
{
   for( int i = 0; i < p.m; ++i )
   {
      if( p.gl[i] == p.gu[i] )
         continue;
      bool l = p.gl[i] > -1e19, u = p.gu[i] < 1e19;
      if( l && u )
      {
         bool dropl = p.known ? p.lam[i] > 0 || (p.lam[i] == 0 && c.src.flip()) : c.src.flip();
         (dropl ? p.gl : p.gu)[i] = dropl ? -1e20 : 1e20;
      }
      else if( !l && !u )
      {
         double v = p.g[i].val(p.known ? p.xs.data() : p.x0.data());
         p.gl[i] = v - 1;
      }
   }
}
/** bounds written as inequality constraints after the user's inequalities: what the option promises to do */
static Problem byhand(const Problem& p, std::vector<int>& lo, std::vector<int>& up)
{
   Problem q = p;
   auto add = [&](int i, double l, double u)
   {
      Func g;
      Term t;
      t.kind = LIN;
      t.a.push_back(std::make_pair(i, 1.));
      g.t.push_back(t);
      q.g.push_back(g);
      q.gl.push_back(l);
      q.gu.push_back(u);
      q.m++;
   };
   for( int i = 0; i < p.n; ++i )
      if( !p.fixed(i) && p.xl[i] > -1e19 )
      {
         lo.push_back(i);
         add(i, p.xl[i], 1e20);
      }
   for( int i = 0; i < p.n; ++i )
      if( !p.fixed(i) && p.xu[i] < 1e19 )
      {
         up.push_back(i);
         add(i, -1e20, p.xu[i]);
      }
   for( int i = 0; i < p.n; ++i )
      if( !p.fixed(i) )
      {
         q.xl[i] = -1e20;
         q.xu[i] = 1e20;
      }
   q.known = false;
   return q;
}
static bool near(double a, double b, double rel, double abs)
{
   return a == b || std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)) || (a != a && b != b);
}
static void f_bounds(Ctx& c)
{
   GenCfg g;
   g.nmax = c.src.flip(0.1) ? 15 : 6;
   g.fixed = c.src.flip(0.25);
   bool convex = c.src.flip(0.6);
   Problem p = convex ? gen_convex(c, g) : gen_general(c, g);
   onesided(c, p);
   int two = -1;
   if( c.src.flip(0.04) )
      for( int i = 0; i < p.m; ++i )
         if( p.gl[i] < p.gu[i] )
         {
            two = i;
            if( p.gl[i] < -1e19 )
               p.gl[i] = p.gu[i] - 10;
            else
               p.gu[i] = p.gl[i] + 10;
            break;
         }
   Opts o = base_opts();
   if( c.src.flip(0.4) )
      o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.25) )
      o.S("mu_strategy", "adaptive");
   if( !convex )
      o.I("max_iter", 200);
   Opts oh = o;
   Opts ob = o;
   ob.S("replace_bounds", "yes");
   c.desc << p.show() << ob.show() << "\n";
   Pres pr = gen_pres(c, p);
   bool userscale = c.src.flip(0.15);
   double os = 1;
   Vec sx(p.n, 1.), sg(p.m, 1.);
   if( userscale )
   {
      os = c.src.nice(0.25, 4);
      for( double& v : sx )
         v = c.src.nice(0.25, 4);
      for( double& v : sg )
         v = c.src.nice(0.25, 4);
      ob.S("nlp_scaling_method", "user-scaling");
      oh.S("nlp_scaling_method", "user-scaling");
      c.desc << "user scaling " << os << " x " << vs(sx) << " g " << vs(sg) << "\n";
   }
   auto scal = [&](RecTNLP & t, const std::vector<int>& lo, const std::vector<int>& up, bool hand)
   {
      if( !userscale )
         return;
      t.give_scaling = true;
      t.obj_scaling = os;
      t.use_x_scaling = t.use_g_scaling = true;
      t.x_scaling = sx;
      t.g_scaling = sg;
      if( hand )
      {
         for( int i : lo )
            t.g_scaling.push_back(sx[i]);
         for( int i : up )
            t.g_scaling.push_back(sx[i]);
      }
   };
   std::vector<int> lo, up;
   Problem q = byhand(p, lo, up);
   SmartPtr<RecTNLP> t = new RecTNLP(p, pr);
   scal(*t, lo, up, false);
   bool queries = c.src.flip(0.5);
   Vec qx, qzl, qzu, qlam, cx, cg;
   bool qok = false;
   if( queries )
      t->on_iter = [&](RecTNLP & u, const IterInfo&, const IpoptData * d, IpoptCalculatedQuantities * cq)
   {
      qx.assign(p.n, 0);
      qzl = qzu = qx;
      qlam.assign(p.m, 0);
      Vec gg(p.m);
      qok = u.get_curr_iterate(d, cq, false, p.n, qx.data(), qzl.data(), qzu.data(), p.m, gg.data(), qlam.data());
      return true;
   };
   Outcome r = solve(GetRawPtr(t), ob);
   // Jacobian and Hessian of the problem by hand: the user's entries, then one for each bound
   Pres ph = pr;
   int k = p.m;
   for( int i : lo )
      ph.jac.push_back({k++, i, 1.});
   for( int i : up )
      ph.jac.push_back({k++, i, 1.});
   SmartPtr<RecTNLP> h = new RecTNLP(q, ph);
   scal(*h, lo, up, true);
   Outcome s = solve(GetRawPtr(h), oh);
   c.desc << " -> " << statname(r.app) << " / by hand " << statname(s.app) << " after " << r.iters.size() << " / " << s.iters.size() << " reports\n";
   c.label(statname(r.app));
   if( two >= 0 )
   {
      c.label("two-sided inequality");
      PBT_CHECK(c, r.nfinal == 0 && (r.app == Invalid_Problem_Definition || r.app == Unrecoverable_Exception), "twosided", "status %s although a two-sided inequality is not supported", statname(r.app));
      return;
   }
   c.nontrivial = r.iters.size() > 1 && lo.size() + up.size() > 0;
   // the same iterates up to rounding
   size_t cmp = std::min<size_t>(3, std::min(r.iters.size(), s.iters.size()));
   for( size_t i = 0; i < cmp; ++i )
   {
      const IterInfo& u = r.iters[i], &v = s.iters[i];
      if( i > 0 && (!p.known || u.reg > 0 || v.reg > 0 || !(u.inf_du < 1e6) || !(u.d_norm < 1e4)) )
         break;    // nearly singular systems amplify rounding errors
      PBT_CHECK(c, u.mode == v.mode && near(u.obj, v.obj, 1e-5, 1e-5) && near(u.inf_pr, v.inf_pr, 1e-5, 1e-5) && near(u.inf_du, v.inf_du, 1e-4, 1e-4) && near(u.mu, v.mu, 1e-4, 1e-10), "reports",
                "report %d: obj %.12g inf_pr %.12g inf_du %.12g mu %g; for the problem written by hand obj %.12g inf_pr %.12g inf_du %.12g mu %g", (int)i, u.obj, u.inf_pr, u.inf_du, u.mu, v.obj, v.inf_pr, v.inf_du, v.mu);
   }
   if( convex && !userscale )
      PBT_CHECK(c, r.ok() || !s.ok(), "not-solved", "%s with replace_bounds, but %s for the problem written by hand", statname(r.app), statname(s.app));
   if( r.ok() )
   {
      KKT e = kkt(p, r.x, r.lam, r.zl, r.zu);
      double ym = std::max(1., (maxabs(r.lam) + maxabs(r.zl) + maxabs(r.zu)) / 100), sc = os < 1 ? 1 / os : 1;
      for( double v : sx )
         sc = std::max(sc, std::max(v, 1 / v) * std::max(1., 1 / os));
      if( (o.str("nlp_scaling_method", "") == "none" || userscale) && maxabs(r.x) < 1e4 )
      {
         PBT_CHECK(c, e.dual <= 2e-8 * ym * sc * p.n + 1e-7, "dual", "gradient of the Lagrangian is %g", e.dual);
         PBT_CHECK(c, e.compl_ <= 4e-6 * ym * sc + 1e-7 * sc * ym * (1 + maxabs(r.x) + maxabs(r.g)) + 1e-6 * (maxabs(r.lam) + maxabs(r.zl) + maxabs(r.zu)), "compl", "complementarity is %g; multipliers %s %s %s", e.compl_, vs(r.lam).c_str(), vs(r.zl).c_str(), vs(r.zu).c_str());
      }
      PBT_CHECK(c, e.constr <= 1.1e-4, "constr", "constraint violation %g", e.constr);
      PBT_CHECK(c, e.bound <= 1.1e-4, "bound", "bound violation %g", e.bound);
      for( int i = 0; i < p.n; ++i )
         if( !p.fixed(i) )
            PBT_CHECK(c, (p.xl[i] > -1e19 ? r.zl[i] >= -1e-7 * ym : r.zl[i] == 0) && (p.xu[i] < 1e19 ? r.zu[i] >= -1e-7 * ym : r.zu[i] == 0), "sign", "bound multipliers of x%d are %g, %g", i, r.zl[i], r.zu[i]);
      if( p.known )
      {
         double ccx, ccy;
         known_cond(p, ccx, ccy);
         double xm = 1 + maxabs(p.xs), m2 = 1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu);
         PBT_CHECK(c, maxdiff(r.x, p.xs) <= 4e-5 * sc * ccx * xm, "x", "x=%s instead of %s", vs(r.x).c_str(), vs(p.xs).c_str());
         PBT_CHECK(c, maxdiff(r.lam, p.lam) <= 4e-4 * sc * ccy * m2, "lambda", "lambda=%s instead of %s", vs(r.lam).c_str(), vs(p.lam).c_str());
         PBT_CHECK(c, maxdiff(r.zl, p.zl) <= 4e-4 * sc * ccy * m2 && maxdiff(r.zu, p.zu) <= 4e-4 * sc * ccy * m2, "z", "z=%s/%s instead of %s/%s", vs(r.zl).c_str(), vs(r.zu).c_str(), vs(p.zl).c_str(), vs(p.zu).c_str());
      }
      if( queries )
      {
         // the last report is at the returned point; the query may be refused when bounds are replaced
         if( qok && p.nfixed() == 0 )
         {
            PBT_CHECK(c, maxdiff(qx, r.x) <= 1e-12 * (1 + maxabs(r.x)), "query-x", "current iterate %s, returned %s", vs(qx).c_str(), vs(r.x).c_str());
            PBT_CHECK(c, maxdiff(qlam, r.lam) <= 1e-9 * (1 + maxabs(r.lam)), "query-lam", "current multipliers %s, returned %s", vs(qlam).c_str(), vs(r.lam).c_str());
            PBT_CHECK(c, maxdiff(qzl, r.zl) <= 1e-9 * (1 + maxabs(r.zl)) && maxdiff(qzu, r.zu) <= 1e-9 * (1 + maxabs(r.zu)), "query-z", "current bound multipliers %s / %s, returned %s / %s", vs(qzl).c_str(), vs(qzu).c_str(),
                      vs(r.zl).c_str(), vs(r.zu).c_str());
         }
      }
   }
   // warm start: the multipliers of the bounds are those of the constraints
   if( r.ok() && c.src.flip(0.5) )
   {
      Opts w = ob, wh = oh;
      for( Opts* u : {&w, &wh} )
         u->S("warm_start_init_point", "yes").N("mu_init", 1e-6);
      SmartPtr<RecTNLP> t2 = new RecTNLP(p, pr), h2 = new RecTNLP(q, ph);
      scal(*t2, lo, up, false);
      scal(*h2, lo, up, true);
      t2->start_x = h2->start_x = r.x;
      t2->start_lam = h2->start_lam = r.lam;
      t2->start_zl = r.zl;
      t2->start_zu = r.zu;
      h2->start_zl.assign(p.n, 0.);
      h2->start_zu.assign(p.n, 0.);
      for( int i : lo )
         h2->start_lam.push_back(-r.zl[i]);
      for( int i : up )
         h2->start_lam.push_back(r.zu[i]);
      if( c.src.flip() )   // from elsewhere
      {
         for( double& v : t2->start_x )
            v += c.src.nice(-1, 1);
         h2->start_x = t2->start_x;
      }
      Outcome a = solve(GetRawPtr(t2), w), b = solve(GetRawPtr(h2), wh);
      c.desc << " warm start -> " << statname(a.app) << " / " << statname(b.app) << "\n";
      c.label("warm start");
      if( a.iters.size() && b.iters.size() )
      {
         const IterInfo& u = a.iters[0], &v = b.iters[0];
         PBT_CHECK(c, near(u.obj, v.obj, 1e-5, 1e-6) && near(u.inf_pr, v.inf_pr, 1e-5, 1e-6) && near(u.inf_du, v.inf_du, 1e-4, 1e-5), "warm",
                   "warm start: first report obj %.12g inf_pr %g inf_du %g, for the problem written by hand obj %.12g inf_pr %g inf_du %g", u.obj, u.inf_pr, u.inf_du, v.obj, v.inf_pr, v.inf_du);
      }
   }
}

int main(int argc, char** argv)
{
   pbt::Check ck = {"P20", "the reformulated problem had at least one dropped part (reducer) or bound (replace_bounds) and took at least one iteration",
      {{"reducer", f_reducer, 5000, 300000}, {"bounds", f_bounds, 5000, 300000}}
   };
   return pbt::run_main(argc, argv, ck);
}
