// P10: problem scaling is invisible in everything reported to the user.
#include "anycase.hpp"
#include "IpIpoptNLP.hpp"
#include "IpNLPScaling.hpp"
#include "IpDenseVector.hpp"
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

/** queries at one report, both scaled and unscaled */
struct Q
{
   bool ok[2] = {false, false}, vok[2] = {false, false};
   Vec x[2], zl[2], zu[2], g[2], lam[2];                                  // [0] unscaled, [1] scaled
   Vec xlv[2], xuv[2], cl[2], cu[2], gl[2], cv[2], cg[2];
};
static void query(TNLP& t, int n, int m, const IpoptData* d, IpoptCalculatedQuantities* cq, Q& q)
{
   for( int s = 0; s < 2; ++s )
   {
      for( Vec* v : {&q.x[s], &q.zl[s], &q.zu[s], &q.xlv[s], &q.xuv[s], &q.cl[s], &q.cu[s], &q.gl[s]} )
         v->assign(n, 0.);
      for( Vec* v : {&q.g[s], &q.lam[s], &q.cv[s], &q.cg[s]} )
         v->assign(m, 0.);
      q.ok[s] = t.get_curr_iterate(d, cq, s == 1, n, q.x[s].data(), q.zl[s].data(), q.zu[s].data(), m, q.g[s].data(), q.lam[s].data());
      q.vok[s] = t.get_curr_violations(d, cq, s == 1, n, q.xlv[s].data(), q.xuv[s].data(), q.cl[s].data(), q.cu[s].data(), q.gl[s].data(), m, q.cv[s].data(), q.cg[s].data());
   }
}
struct Factors
{
   bool hc = false, hd = false;
   int ne = 0, ni = 0;
   double df = 1;
   Vec dx, dg;
};
/** the problem with variables dx*x, objective df*f and constraints dg*g, written down explicitly */
class Explicit: public TNLP
{
public:
   SmartPtr<RecTNLP> in;
   Factors s;
   Outcome out;
   std::vector<Q> qs;
   bool queries = false;
   int n, m;
   std::vector<int> jr, jc, hr, hc;
   Explicit(RecTNLP* t, const Factors& f) : in(t), s(f), n(t->p.n), m(t->p.m) { }
   bool get_nlp_info(Index& a, Index& b, Index& c, Index& d, IndexStyleEnum& e) override { return in->get_nlp_info(a, b, c, d, e); }
   bool get_bounds_info(Index nn, double* xl, double* xu, Index mm, double* gl, double* gu) override
   {
      bool r = in->get_bounds_info(nn, xl, xu, mm, gl, gu);
      for( int i = 0; i < n; ++i )
      {
         if( xl[i] > -1e19 ) xl[i] *= s.dx[i];
         if( xu[i] < 1e19 ) xu[i] *= s.dx[i];
      }
      for( int j = 0; j < m; ++j )
      {
         if( gl[j] > -1e19 ) gl[j] *= s.dg[j];
         if( gu[j] < 1e19 ) gu[j] *= s.dg[j];
      }
      return r;
   }
   bool get_starting_point(Index nn, bool ix, double* x, bool iz, double* zl, double* zu, Index mm, bool il, double* lam) override
   {
      bool r = in->get_starting_point(nn, ix, x, iz, zl, zu, mm, il, lam);
      for( int i = 0; i < n; ++i )
      {
         if( ix ) x[i] *= s.dx[i];
         if( iz ) zl[i] *= s.df / s.dx[i], zu[i] *= s.df / s.dx[i];
      }
      for( int j = 0; il && j < m; ++j )
         lam[j] *= s.df / s.dg[j];
      return r;
   }
   Vec ux(const double* x) const
   {
      Vec u(n);
      for( int i = 0; i < n; ++i )
         u[i] = x[i] / s.dx[i];
      return u;
   }
   bool eval_f(Index nn, const double* x, bool nx, double& v) override
   {
      bool r = in->eval_f(nn, ux(x).data(), nx, v);
      v *= s.df;
      return r;
   }
   bool eval_grad_f(Index nn, const double* x, bool nx, double* g) override
   {
      bool r = in->eval_grad_f(nn, ux(x).data(), nx, g);
      for( int i = 0; i < n; ++i )
         g[i] *= s.df / s.dx[i];
      return r;
   }
   bool eval_g(Index nn, const double* x, bool nx, Index mm, double* g) override
   {
      bool r = in->eval_g(nn, ux(x).data(), nx, mm, g);
      for( int j = 0; j < m; ++j )
         g[j] *= s.dg[j];
      return r;
   }
   bool eval_jac_g(Index nn, const double* x, bool nx, Index mm, Index ne, Index* ir, Index* jc_, double* v) override
   {
      if( v == NULL )
      {
         bool r = in->eval_jac_g(nn, x, nx, mm, ne, ir, jc_, v);
         int o = in->pres.fortran ? 1 : 0;
         jr.clear();
         jc.clear();
         for( int k = 0; k < ne; ++k )
            jr.push_back(ir[k] - o), jc.push_back(jc_[k] - o);
         return r;
      }
      bool r = in->eval_jac_g(nn, ux(x).data(), nx, mm, ne, ir, jc_, v);
      for( int k = 0; k < ne; ++k )
         v[k] *= s.dg[jr[k]] / s.dx[jc[k]];
      return r;
   }
   bool eval_h(Index nn, const double* x, bool nx, double of, Index mm, const double* lam, bool nl, Index ne, Index* ir, Index* jc_, double* v) override
   {
      if( v == NULL )
      {
         bool r = in->eval_h(nn, x, nx, of, mm, lam, nl, ne, ir, jc_, v);
         int o = in->pres.fortran ? 1 : 0;
         hr.clear();
         hc.clear();
         for( int k = 0; k < ne; ++k )
            hr.push_back(ir[k] - o), hc.push_back(jc_[k] - o);
         return r;
      }
      Vec l(m);
      for( int j = 0; j < m; ++j )
         l[j] = lam[j] * s.dg[j];
      bool r = in->eval_h(nn, ux(x).data(), nx, of * s.df, mm, l.data(), nl, ne, ir, jc_, v);
      for( int k = 0; k < ne; ++k )
         v[k] *= 1 / s.dx[hr[k]] / s.dx[hc[k]];
      return r;
   }
   void finalize_solution(SolverReturn st, Index, const double* x, const double* zl, const double* zu, Index, const double* g, const double* lam, double obj, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      out.nfinal++;
      out.fin = st;
      out.x.assign(x, x + n);
      out.zl.assign(zl, zl + n);
      out.zu.assign(zu, zu + n);
      out.g.assign(g, g + m);
      out.lam.assign(lam, lam + m);
      out.obj = obj;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, double obj, double ip, double id, double mu, double dn, double reg, double ad, double ap, Index ls, const IpoptData* d, IpoptCalculatedQuantities* cq) override
   {
      IterInfo i = {mode, iter, obj, ip, id, mu, dn, reg, ad, ap, ls};
      out.iters.push_back(i);
      if( queries )
      {
         qs.push_back(Q());
         query(*this, n, m, d, cq, qs.back());
      }
      return true;
   }
   bool sx = false, sg = false;
   bool get_scaling_parameters(double& os, bool& a, Index, double* x, bool& b, Index, double* g) override
   {
      os = 1;
      a = sx;
      b = sg;
      for( int i = 0; sx && i < n; ++i )
         x[i] = 1;
      for( int j = 0; sg && j < m; ++j )
         g[j] = 1;
      return true;
   }
   Index get_number_of_nonlinear_variables() override { return in->get_number_of_nonlinear_variables(); }
   bool get_list_of_nonlinear_variables(Index k, Index* p) override { return in->get_list_of_nonlinear_variables(k, p); }
};
static bool same(double a, double b)
{
   return a == b || (std::isnan(a) && std::isnan(b));
}
static bool close(double a, double b, double scale)
{
   return same(a, b) || std::fabs(a - b) <= 1e-13 * (std::fabs(a) + std::fabs(b)) + scale;
}
static double scal(Ctx& c, int range)
{
   return std::ldexp(1., c.src.integer(-range, range));
}
static Outcome runapp(TNLP* t, const Opts& o, Outcome& out)
{
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   o.apply(*app->Options());
   ApplicationReturnStatus st = app->Initialize("");
   if( st == Solve_Succeeded )
      st = app->OptimizeTNLP(t);
   out.app = st;
   grab_stats(*app, out);
   return out;
}
static void cmp_iters(Ctx& c, const std::vector<IterInfo>& A, const std::vector<IterInfo>& B, double df, const char* what)
{
   for( size_t k = 0; k < std::min(A.size(), B.size()); ++k )
   {
      const IterInfo& a = A[k], &b = B[k];
      PBT_CHECK(c, a.mode == b.mode && a.iter == b.iter && a.ls == b.ls && same(a.obj * df, b.obj) && same(a.inf_pr, b.inf_pr) && same(a.inf_du, b.inf_du) && same(a.mu, b.mu) && same(a.d_norm, b.d_norm)
                && same(a.reg, b.reg) && same(a.alpha_du, b.alpha_du) && same(a.alpha_pr, b.alpha_pr), "iterates",
                "%s: report %d differs: with scaling iter %d mode %d obj %.17g (x%g) inf_pr %.17g inf_du %.17g mu %.17g ||d|| %.17g reg %.17g alpha %.17g %.17g ls %d, without iter %d mode %d obj %.17g inf_pr %.17g inf_du %.17g mu %.17g ||d|| %.17g reg %.17g alpha %.17g %.17g ls %d",
                what, (int)k, a.iter, a.mode, a.obj, df, a.inf_pr, a.inf_du, a.mu, a.d_norm, a.reg, a.alpha_du, a.alpha_pr, a.ls, b.iter, b.mode, b.obj, b.inf_pr, b.inf_du, b.mu, b.d_norm, b.reg, b.alpha_du, b.alpha_pr, b.ls);
   }
   PBT_CHECK(c, A.size() == B.size(), "iterates", "%s: %d reports with scaling, %d without", what, (int)A.size(), (int)B.size());
}
static void strip(Opts& o, std::initializer_list<const char*> names)
{
   for( const char* n : names )
      for( size_t k = o.v.size(); k-- > 0; )
         if( o.v[k].name == n )
            o.v.erase(o.v.begin() + (long)k);
}
static void no_unscaled_tests(Opts& o)
{
   // tests on unscaled quantities differ between the two ways of writing the problem
   o.N("dual_inf_tol", 1e20).N("constr_viol_tol", 1e20).N("compl_inf_tol", 1e20).N("acceptable_dual_inf_tol", 1e30).N("acceptable_constr_viol_tol", 1e30).N("acceptable_compl_inf_tol", 1e30);
   o.N("bound_relax_factor", 0.).S("recalc_y", "no");
}
/* user scaling by powers of two must produce exactly the run of the explicitly scaled problem */
static void f_twin(Ctx& c)
{
   Any a;
   int fl = AF_WARM | AF_INFEAS | AF_LIMITS;   // the cg-penalty line search looks at unscaled quantities
   gen_any(c, a, fl, c.src.flip(0.3) ? 0.2 : 0.05);
   Problem& p = a.p;
   strip(a.o, {"nlp_scaling_method", "obj_scaling_factor", "honor_original_bounds", "bound_relax_factor", "fixed_variable_treatment"});
   no_unscaled_tests(a.o);
   if( c.src.flip(0.3) )
      a.o.S("fixed_variable_treatment", "make_parameter_nodual");
   Factors s;
   int range = c.src.flip(0.3) ? 14 : 4;
   bool ux = c.src.flip(0.7), ug = c.src.flip(0.7);
   s.df = scal(c, range);
   if( c.src.flip(0.15) )
      s.df = -s.df;
   double extra = 1;       // obj_scaling_factor multiplies
   if( c.src.flip(0.25) )
      extra = scal(c, 3) * (c.src.flip(0.2) ? -1 : 1);
   for( int i = 0; i < p.n; ++i )
      s.dx.push_back(ux ? scal(c, range) : 1);
   for( int j = 0; j < p.m; ++j )
      s.dg.push_back(ug ? scal(c, range) : 1);
   bool queries = c.src.flip(0.5);
   c.desc << a.show() << " obj factor " << s.df << " * " << extra << " x " << vs(s.dx) << " g " << vs(s.dg) << (queries ? " queries" : "") << "\n";
   SmartPtr<RecTNLP> t = a.make();
   t->give_scaling = true;
   t->obj_scaling = s.df;
   t->use_x_scaling = ux || c.src.flip(0.2);
   t->use_g_scaling = ug || c.src.flip(0.2);
   t->x_scaling = s.dx;
   t->g_scaling = s.dg;
   std::vector<Q> qs;
   if( queries )
      t->on_iter = [&qs](RecTNLP & q, const IterInfo&, const IpoptData * d, IpoptCalculatedQuantities * cq)
      {
         qs.push_back(Q());
         query(q, q.p.n, q.p.m, d, cq, qs.back());
         return true;
      };
   Opts o1 = a.o;
   o1.S("nlp_scaling_method", "user-scaling");
   if( extra != 1 )
      o1.N("obj_scaling_factor", extra);
   Outcome r1 = solve(GetRawPtr(t), o1);
   s.df *= extra;
   SmartPtr<RecTNLP> t2 = a.make();
   SmartPtr<Explicit> e = new Explicit(GetRawPtr(t2), s);
   e->queries = queries;
   // with factors of one the same sequence of operations is performed (a matrix without scaling adds up in another order)
   e->sx = t->use_x_scaling;
   e->sg = t->use_g_scaling;
   Opts o2 = a.o;
   o2.S("nlp_scaling_method", "user-scaling");
   Outcome r2 = runapp(GetRawPtr(e), o2, e->out);
   r2 = e->out;
   c.desc << " -> " << statname(r1.app) << " / " << statname(r2.app) << " after " << r1.iters.size() << " / " << r2.iters.size() << " reports\n";
   c.label(statname(r1.app));
   for( const IterInfo& i : r1.iters )
      if( std::fabs(i.obj) > 1e100 )
         c.discard();
   cmp_iters(c, r1.iters, r2.iters, s.df, "user scaling against the explicitly scaled problem");
   // whether a point where the restoration phase converged counts as feasible is (deliberately) decided in the user's units, too
   auto stuck = [](ApplicationReturnStatus q) { return q == Infeasible_Problem_Detected || q == Restoration_Failed ? Infeasible_Problem_Detected : q; };
   PBT_CHECK(c, stuck(r1.app) == stuck(r2.app), "status", "status %s with scaling, %s for the explicitly scaled problem", statname(r1.app), statname(r2.app));
   c.nontrivial = r1.iters.size() >= 3 && (s.df != 1 || ux || ug);
   PBT_CHECK(c, r1.nfinal == r2.nfinal, "final", "finalize_solution called %d / %d times", r1.nfinal, r2.nfinal);
   if( r1.nfinal == 1 )
   {
      auto chk = [&](const char* what, int k, double scaled, double expl, bool exact)
      {
         PBT_CHECK(c, exact ? same(scaled, expl) : close(scaled, expl, 0), "final", "returned %s[%d], scaled, is %.17g, for the explicitly scaled problem %.17g", what, k, scaled, expl);
      };
      for( int i = 0; i < p.n; ++i )
      {
         chk("x", i, r1.x[i] * s.dx[i], r2.x[i], true);
         if( !p.fixed(i) )
         {
            chk("z_L", i, r1.zl[i] * s.df / s.dx[i], r2.zl[i], true);
            chk("z_U", i, r1.zu[i] * s.df / s.dx[i], r2.zu[i], true);
         }
         else
         {
            // a negative factor exchanges the roles of the two multipliers of a fixed variable
            double m1 = (r1.zl[i] - r1.zu[i]) * s.df / s.dx[i], m2 = r2.zl[i] - r2.zu[i];
            chk("multiplier of fixed x", i, m1, m2, true);
         }
      }
      for( int j = 0; j < p.m; ++j )
      {
         // inequality values are those at the final point, equality values add the right hand side back
         chk("g", j, r1.g[j] * s.dg[j], r2.g[j], p.gl[j] < p.gu[j]);
         chk("lambda", j, r1.lam[j] * s.df / s.dg[j], r2.lam[j], true);
      }
      chk("objective", 0, r1.obj * s.df, r2.obj, true);
   }
   PBT_CHECK(c, r1.have_stats == r2.have_stats, "stats", "statistics %d/%d", (int)r1.have_stats, (int)r2.have_stats);
   if( r1.have_stats )
   {
      struct { const char* n; double a, b; } S[] = {
         {"scaled objective", r1.st_sobj, r2.st_obj}, {"scaled dual infeasibility", r1.st_sdual, r2.st_dual}, {"scaled constraint violation", r1.st_sconstr, r2.st_constr}, {"scaled complementarity", r1.st_scompl, r2.st_compl},
         {"scaled KKT error", r1.st_skkt, r2.st_skkt}, {"scaled bound violation", r1.st_sbound, r2.st_bound}, {"objective", r1.st_obj * s.df, r2.st_obj}};
      for( auto& q : S )
         PBT_CHECK(c, close(q.a, q.b, 0), "stats", "%s %.17g, %.17g for the explicitly scaled problem", q.n, q.a, q.b);
   }
   if( queries )
      for( size_t k = 0; k < std::min(qs.size(), e->qs.size()); ++k )
      {
         Q& q = qs[k];
         Q& w = e->qs[k];
         PBT_CHECK(c, q.ok[0] == q.ok[1] && q.ok[0] == w.ok[0] && q.vok[0] == q.vok[1] && q.vok[0] == w.vok[0], "query", "queries at report %d succeed differently", (int)k);
         auto cmp = [&](const char* what, const Vec & sv, const Vec & ev, const Vec & uv, std::function<double(int)> f)
         {
            for( size_t i = 0; i < sv.size(); ++i )
            {
               // fixed variables are not part of the scaled problem, their quantities are computed in user units
               if( sv.size() == (size_t)p.n && what[0] != 'V' && p.fixed((int)i) )
                  continue;
               PBT_CHECK(c, close(sv[i], ev[i], 1e-300), "query", "report %d: scaled %s[%d] = %.17g, explicitly scaled problem %.17g", (int)k, what, (int)i, sv[i], ev[i]);
               PBT_CHECK(c, close(uv[i] * f((int)i), ev[i], 1e-300), "query", "report %d: unscaled %s[%d] = %.17g, times factor %.17g, explicitly scaled problem %.17g", (int)k, what, (int)i, uv[i], uv[i] * f((int)i), ev[i]);
            }
         };
         auto fx = [&](int i) { return s.dx[i]; };
         auto fz = [&](int i) { return s.df / s.dx[i]; };
         auto fg = [&](int j) { return s.dg[j]; };
         auto fl_ = [&](int j) { return s.df / s.dg[j]; };
         auto fo = [&](int) { return s.df; };
         if( q.ok[0] )
         {
            cmp("x", q.x[1], w.x[0], q.x[0], fx);
            cmp("z_L", q.zl[1], w.zl[0], q.zl[0], fz);
            cmp("z_U", q.zu[1], w.zu[0], q.zu[0], fz);
            cmp("g", q.g[1], w.g[0], q.g[0], fg);
            cmp("lambda", q.lam[1], w.lam[0], q.lam[0], fl_);
         }
         if( q.vok[0] )
         {
            cmp("lower bound violation", q.xlv[1], w.xlv[0], q.xlv[0], fx);
            cmp("upper bound violation", q.xuv[1], w.xuv[0], q.xuv[0], fx);
            cmp("lower bound complementarity", q.cl[1], w.cl[0], q.cl[0], fo);
            cmp("upper bound complementarity", q.cu[1], w.cu[0], q.cu[0], fo);
            cmp("gradient of the Lagrangian", q.gl[1], w.gl[0], q.gl[0], fz);
            cmp("constraint violation", q.cv[1], w.cv[0], q.cv[0], fg);
            // documented by the sign of lambda, which changes with the sign of the factor
            if( s.df > 0 )
               cmp("constraint complementarity", q.cg[1], w.cg[0], q.cg[0], fo);
         }
         c.label("queries compared");
      }
}
/** scaling factors in use */
static bool factors(const Problem& p, IpoptCalculatedQuantities* cq, Factors& s)
{
   SmartPtr<NLPScalingObject> sc = cq->GetIpoptNLP()->NLP_scaling();
   if( !IsValid(sc) )
      return false;
   s.df = sc->apply_obj_scaling(1.);
   int ne = 0, ni = 0;
   for( int j = 0; j < p.m; ++j )
      ++(p.gl[j] == p.gu[j] ? ne : ni);
   SmartPtr<DenseVectorSpace> ec = new DenseVectorSpace(ne), ed = new DenseVectorSpace(ni);
   SmartPtr<DenseVector> oc = ec->MakeNewDenseVector(), od = ed->MakeNewDenseVector();
   oc->Set(1.);
   od->Set(1.);
   SmartPtr<const Vector> c2 = sc->apply_vector_scaling_c(ConstPtr(oc)), d2 = sc->apply_vector_scaling_d(ConstPtr(od));
   const DenseVector* cv = dynamic_cast<const DenseVector*>(GetRawPtr(c2));
   const DenseVector* dv = dynamic_cast<const DenseVector*>(GetRawPtr(d2));
   if( !cv || !dv )
      return false;
   s.hc = sc->have_c_scaling();
   s.hd = sc->have_d_scaling();
   s.ne = ne;
   s.ni = ni;
   s.dx.assign(p.n, 1.);
   s.dg.assign(p.m, 1.);
   int ie = 0, ii = 0;
   for( int j = 0; j < p.m; ++j )
      s.dg[j] = p.gl[j] == p.gu[j] ? cv->ExpandedValues()[ie++] : dv->ExpandedValues()[ii++];
   return true;
}
static void f_gradient(Ctx& c)
{
   Any a;
   // functions over many orders of magnitude
   gen_any(c, a, AF_INFEAS | AF_LIMITS | AF_WARM, 0.05);
   Problem& p = a.p;
   p.known = false;
   strip(a.o, {"nlp_scaling_method", "obj_scaling_factor", "honor_original_bounds", "fixed_variable_treatment", "dependency_detector", "nlp_scaling_max_gradient", "nlp_scaling_obj_target_gradient", "nlp_scaling_constr_target_gradient"});
   auto boost = [&](Func & f, double w)
   {
      f.c0 *= w;
      for( auto& q : f.t )
         q.c *= w;
   };
   if( c.src.flip(0.6) )
      boost(p.f, c.src.logreal(1e-6, 1e12));
   for( int j = 0; j < p.m; ++j )
      if( c.src.flip(0.6) )
      {
         double w = c.src.logreal(1e-6, 1e12);
         boost(p.g[j], w);
         if( p.gl[j] > -1e19 ) p.gl[j] *= w;
         if( p.gu[j] < 1e19 ) p.gu[j] *= w;
      }
   double mg = 100, ot = 0, ct = 0, mv = 1e-8;
   if( c.src.flip(0.3) )
      a.o.N("nlp_scaling_max_gradient", mg = c.src.logreal(1e-2, 1e4));
   if( c.src.flip(0.2) )
      a.o.N("nlp_scaling_obj_target_gradient", ot = c.src.logreal(1e-2, 1e3));
   if( c.src.flip(0.2) )
      a.o.N("nlp_scaling_constr_target_gradient", ct = c.src.logreal(1e-2, 1e3));
   if( c.src.flip(0.3) )
      a.o.N("nlp_scaling_min_value", mv = c.src.flip(0.3) ? 0. : c.src.logreal(1e-12, 1.));
   double extra = 1;
   if( c.src.flip(0.2) )
      a.o.N("obj_scaling_factor", extra = c.src.logreal(1e-2, 1e2) * (c.src.flip(0.2) ? -1 : 1));
   c.desc << a.show() << "\n";
   SmartPtr<RecTNLP> t = a.make();
   Factors s;
   bool have = false;
   t->on_iter = [&](RecTNLP & q, const IterInfo & i, const IpoptData*, IpoptCalculatedQuantities * cq)
   {
      if( i.iter == 0 && i.mode == RegularMode && !have )
         have = factors(q.p, cq, s);
      return true;
   };
   Opts o1 = a.o;
   o1.S("nlp_scaling_method", "gradient-based");
   Outcome r1 = solve(GetRawPtr(t), o1);
   c.desc << " -> " << statname(r1.app) << " after " << r1.iters.size() << " reports; factors " << s.df << " " << vs(s.dg) << "\n";
   c.label(statname(r1.app));
   if( !have )
      c.discard();
   // documented factors; entries are those written down by the user
   Vec x0 = p.x0;
   for( int i = 0; i < p.n; ++i )
      if( p.fixed(i) )
         x0[i] = p.xl[i];
   Vec gr(p.n, 0.);
   p.f.grad(x0.data(), gr.data());
   double gm = 0;
   for( int i = 0; i < p.n; ++i )
      if( !p.fixed(i) )
         gm = std::max(gm, std::fabs(gr[i]));
   double df = ot > 0 ? (gm > 0 ? ot / gm : 1.) : gm > mg ? mg / gm : 1.;
   df = std::max(df, mv) * extra;
   auto near = [](double u, double v) { return std::fabs(u - v) <= 1e-9 * std::fabs(v); };
   // near the threshold rounding decides
   bool tie = std::fabs(gm - mg) <= 1e-9 * mg;
   PBT_CHECK(c, tie || near(s.df, df) || !(gm < 1e300), "obj-factor", "largest objective gradient at the starting point is %g: factor should be %.17g, is %.17g", gm, df, s.df);
   // rows
   std::vector<double> am(p.m, 0.);
   for( int j = 0; j < p.m; ++j )
   {
      Vec gj(p.n, 0.);
      p.g[j].grad(x0.data(), gj.data());
      for( auto& e : a.pres.jac )
         if( e.r == j && !p.fixed(e.c) )
            am[j] = std::max(am[j], std::fabs(e.w * gj[e.c]));
   }
   for( int kind = 0; kind < 2; ++kind )
   {
      double all = 0;
      for( int j = 0; j < p.m; ++j )
         if( (p.gl[j] == p.gu[j]) == (kind == 0) )
            all = std::max(all, am[j]);
      for( int j = 0; j < p.m; ++j )
      {
         if( (p.gl[j] == p.gu[j]) != (kind == 0) )
            continue;
         double w = 1;
         if( ct > 0 )
            w = all > 0 ? ct / all : 1.;
         else if( all > mg )
            w = am[j] > mg ? mg / am[j] : 1.;
         bool scaled = ct > 0 ? all > 0 : all > mg;
         if( scaled )
            w = std::max(w, mv);
         bool tie2 = std::fabs(am[j] - mg) <= 1e-9 * mg || std::fabs(all - mg) <= 1e-9 * mg;
         PBT_CHECK(c, tie2 || near(s.dg[j], w) || !(all < 1e300), "constr-factor", "largest entry of row %d of the Jacobian at the starting point is %g (%g over all): factor should be %.17g, is %.17g", j, am[j], all, w, s.dg[j]);
         if( w != 1 )
            c.label("constraint scaled");
      }
   }
   if( df != 1 )
      c.label("objective scaled");
   bool any = df != 1;
   for( double v : s.dg )
      any = any || v != 1;
   c.nontrivial = any;
   // the same factors given by the user produce the same run
   if( extra < 0 )
      return;
   SmartPtr<RecTNLP> t2 = a.make();
   t2->give_scaling = true;
   t2->obj_scaling = s.df / extra;
   // a matrix without scaling adds up in another order than one with factors of one
   if( s.ne > 0 && s.ni > 0 && s.hc != s.hd )
      return;
   t2->use_g_scaling = (s.ne > 0 && s.hc) || (s.ni > 0 && s.hd);
   t2->g_scaling = s.dg;
   t2->use_x_scaling = false;
   t2->x_scaling = s.dx;
   if( extra != 1 && t2->obj_scaling * extra != s.df )
      return;
   Opts o2 = a.o;
   o2.S("nlp_scaling_method", "user-scaling");
   Outcome r2 = solve(GetRawPtr(t2), o2);
   cmp_iters(c, r1.iters, r2.iters, 1., "gradient-based scaling against the same factors given by the user");
   PBT_CHECK(c, r1.app == r2.app && r1.nfinal == r2.nfinal, "status", "status %s with gradient-based, %s with user scaling", statname(r1.app), statname(r2.app));
   if( r1.nfinal == 1 )
      PBT_CHECK(c, eqbits(r1.x, r2.x) && eqbits(r1.lam, r2.lam) && eqbits(r1.zl, r2.zl) && eqbits(r1.zu, r2.zu), "final", "different final points with the same scaling factors");
   c.label("compared with user scaling");
}
/* convex problems with known solution, factors over many orders of magnitude */
static void f_known(Ctx& c)
{
   GenCfg g;
   g.convex = true;
   g.fixed = c.src.flip(0.2);
   Problem p = gen_convex(c, g);
   double cx, cy;
   known_cond(p, cx, cy);
   Pres pr = c.src.flip(0.5) ? gen_pres(c, p) : plain_pres(p);
   Opts o = base_opts();
   o.N("tol", 1e-9).N("dual_inf_tol", 1e-6).N("constr_viol_tol", 1e-8).N("compl_inf_tol", 1e-6).N("bound_relax_factor", 0.).I("max_iter", 500).I("acceptable_iter", 0);
   int meth = c.src.weighted({2, 3, 6});
   static const char* M[] = {"none", "gradient-based", "user-scaling"};
   o.S("nlp_scaling_method", M[meth]);
   SmartPtr<RecTNLP> t = new RecTNLP(p, pr);
   double df = 1;
   if( meth == 2 )
   {
      t->give_scaling = true;
      double lo = c.src.flip(0.3) ? 1e-4 : 0.1;
      t->obj_scaling = df = c.src.logreal(lo, 1 / lo);
      t->use_x_scaling = c.src.flip(0.7);
      t->use_g_scaling = c.src.flip(0.7);
      for( int i = 0; i < p.n; ++i )
         t->x_scaling.push_back(c.src.logreal(lo, 1 / lo));
      for( int j = 0; j < p.m; ++j )
         t->g_scaling.push_back(c.src.logreal(lo, 1 / lo));
   }
   c.desc << p.show() << o.show() << "\n scaling " << df << " " << vs(t->x_scaling) << " " << vs(t->g_scaling) << "\n";
   Outcome r = solve(GetRawPtr(t), o);
   c.desc << " -> " << statname(r.app) << "\n";
   c.label(statname(r.app));
   if( r.app != Solve_Succeeded )
      return;
   c.nontrivial = meth != 0;
   if( cx > 1e5 || cy > 1e5 )
      return;
   double dn = std::max(std::max(r.st_dual, r.st_constr), r.st_compl);
   double res = std::max(1e-6, 10 * dn);
   // complementarity bounds distances only up to the square root
   double tx = std::min(1., 10 * cx * res + 10 * std::sqrt(res)), ty = 10 * cy * (res + tx) + 10 * std::sqrt(res);
   for( int i = 0; i < p.n; ++i )
   {
      PBT_CHECK(c, std::fabs(r.x[i] - p.xs[i]) <= tx * (1 + std::fabs(p.xs[i])), "known-x", "%s: x%d = %.12g, solution %.12g (tolerance %g)", M[meth], i, r.x[i], p.xs[i], tx);
      if( ty < 0.1 )
         PBT_CHECK(c, std::fabs((r.zl[i] - r.zu[i]) - (p.zl[i] - p.zu[i])) <= ty * (1 + std::fabs(p.zl[i]) + std::fabs(p.zu[i])), "known-z", "%s: multipliers of x%d = %.12g %.12g, solution %.12g %.12g (tolerance %g)", M[meth], i, r.zl[i], r.zu[i], p.zl[i], p.zu[i], ty);
   }
   for( int j = 0; ty < 0.1 && j < p.m; ++j )
      PBT_CHECK(c, std::fabs(r.lam[j] - p.lam[j]) <= ty * (1 + std::fabs(p.lam[j])), "known-lam", "%s: multiplier of g%d = %.12g, solution %.12g (tolerance %g)", M[meth], j, r.lam[j], p.lam[j], ty);
   PBT_CHECK(c, std::fabs(r.obj - p.fs) <= 10 * tx * (1 + std::fabs(p.fs)) * (1 + maxabs(p.lam) + maxabs(p.zl) + maxabs(p.zu)), "known-obj", "%s: objective %.12g, optimum %.12g", M[meth], r.obj, p.fs);
   c.label("compared with the known solution");
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P10", "twin: at least three iteration reports and a factor other than one; gradient: some factor differs from one; known: a scaling method other than none",
      {{"twin", f_twin, 6000, 600000}, {"gradient", f_gradient, 5000, 500000}, {"known", f_known, 3000, 200000}}
   };
   return pbt::run_main(argc, argv, k);
}
