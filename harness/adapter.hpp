// Random histories of calls of the NLP interface on a TNLPAdapter, with and without failing user callbacks.
#ifndef ADAPTER_HPP
#define ADAPTER_HPP
#include "anycase.hpp"
#include <algorithm>
#include "IpTNLPAdapter.hpp"
#include "IpDenseVector.hpp"
#include "IpIpoptApplication.hpp"
namespace nlp
{
inline Vec dvals(const Ipopt::Vector& v)
{
   const Ipopt::DenseVector& d = dynamic_cast<const Ipopt::DenseVector&>(v);
   return d.Dim() ? Vec(d.ExpandedValues(), d.ExpandedValues() + d.Dim()) : Vec();
}
inline void adapter_history(pbt::Ctx& c, bool faults)
{
   using namespace Ipopt;
   pbt::Src& s = c.src;
   GenCfg g;
   g.fixed = s.flip(0.35);
   Problem p = s.flip() ? gen_convex(c, g) : gen_general(c, g);
   Pres pr = s.flip() ? gen_pres(c, p) : plain_pres(p);
   Opts o = base_opts();
   std::string treat = "make_parameter";
   if( p.nfixed() > 0 )
   {
      static const char* t[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};
      treat = t[s.below(4)];
      o.S("fixed_variable_treatment", treat);
   }
   bool fdg = s.flip(faults ? 0.4 : 0.2), fdj = s.flip(faults ? 0.4 : 0.2);
   {
      std::vector<std::pair<int, int> > q;
      for( auto& e : pr.jac )
         q.push_back(std::make_pair(e.r, e.c));
      std::sort(q.begin(), q.end());
      if( std::unique(q.begin(), q.end()) != q.end() )
         fdj = false;   // not supported
   }
   if( fdg )
      o.S("gradient_approximation", "finite-difference-values");
   if( fdj )
      o.S("jacobian_approximation", "finite-difference-values");
   c.desc << p.show() << o.show() << "\n";
   SmartPtr<RecTNLP> t = new RecTNLP(p, pr);
   t->derivs_forbidden_g = fdg;
   t->derivs_forbidden_j = fdj;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   o.apply(*app->Options());
   app->Initialize("");
   SmartPtr<TNLPAdapter> ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst()));
   SmartPtr<const VectorSpace> xs, cs, ds, xls, xus, dls, dus;
   SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jcs, jds;
   SmartPtr<const SymMatrixSpace> hs;
   try
   {
      if( !ad->ProcessOptions(*app->Options(), "") || !ad->GetSpaces(xs, cs, ds, xls, pxl, xus, pxu, dls, pdl, dus, pdu, jcs, jds, hs) )
         c.discard();
      SmartPtr<Vector> xl = xls->MakeNew(), xu = xus->MakeNew(), dl = dls->MakeNew(), du = dus->MakeNew();
      SmartPtr<Matrix> m1 = pxl->MakeNew(), m2 = pxu->MakeNew(), m3 = pdl->MakeNew(), m4 = pdu->MakeNew();
      if( !ad->GetBoundsInformation(*m1, *xl, *m2, *xu, *m3, *dl, *m4, *du) )
         c.discard();
   }
   catch( const IpoptException& )
   {
      c.discard();   // too few degrees of freedom
   }
   if( xs->Dim() == 0 )
      c.discard();
   bool param = treat.compare(0, 14, "make_parameter") == 0;
   std::vector<int> xv, ec, ic;   // variables, equalities, inequalities in the order of the algorithm
   for( int i = 0; i < p.n; ++i )
      if( !param || !p.fixed(i) )
         xv.push_back(i);
   for( int j = 0; j < p.m; ++j )
      (p.gl[j] == p.gu[j] ? ec : ic).push_back(j);
   bool fc = treat == "make_constraint";
   PBT_CHECK(c, xs->Dim() == (int)xv.size() && cs->Dim() == (int)ec.size() + (fc ? p.nfixed() : 0) && ds->Dim() == (int)ic.size(), "dims", "adapter uses %d variables, %d equations, %d inequalities", (int)xs->Dim(), (int)cs->Dim(), (int)ds->Dim());
   long failnow = 0;
   int mode = 0;
   int onlyk = -1, after = 0, cnt = 0;
   if( faults )
      t->fault = [&](int kind, long, const double*) -> int
      {
         if( mode == 0 || kind < K_F || kind == K_JACS || kind == K_HESSS || (onlyk >= 0 && kind != onlyk) )
            return F_NONE;
         bool f = mode == 1 ? cnt++ == after : mode == 2 ? cnt++ >= after : false;
         if( f )
            ++failnow;
         return f ? F_FALSE : F_NONE;
      };
   // two of each, so that evaluations alternate
   SmartPtr<DenseVector> X[2], YC[2], YD[2];
   // MakeNew returns a pointer with no other owner: keep it alive while casting
   auto mk = [&](SmartPtr<DenseVector>& v, const VectorSpace& sp)
   {
      SmartPtr<Vector> w = sp.MakeNew();
      v = dynamic_cast<DenseVector*>(GetRawPtr(w));
   };
   for( int k = 0; k < 2; ++k )
   {
      mk(X[k], *xs);
      mk(YC[k], *cs);
      mk(YD[k], *ds);
   }
   auto renew = [&](SmartPtr<DenseVector>& v, const VectorSpace& sp, bool isx)
   {
      if( s.flip(0.3) )
      {
         SmartPtr<Vector> w = sp.MakeNew();
         v = dynamic_cast<DenseVector*>(GetRawPtr(w));
      }
      if( s.flip(0.1) && !isx )
      {
         v->Set(s.nice(-2, 2));
         return;
      }
      Vec q(sp.Dim());
      for( size_t i = 0; i < q.size(); ++i )
      {
         q[i] = s.nice(-2, 2);
         if( isx )
         {
            int k = xv[i];
            if( p.xl[k] > -INF )
               q[i] = std::max(q[i], p.xl[k]);
            if( p.xu[k] < INF )
               q[i] = std::min(q[i], p.xu[k]);
         }
      }
      if( q.size() )
         v->SetValues(q.data());
      else
         v->Set(0.);
   };
   for( int k = 0; k < 2; ++k )
   {
      renew(X[k], *xs, true);
      renew(YC[k], *cs, false);
      renew(YD[k], *ds, false);
   }
   int nops = s.integer(3, 25), evals = 0, nfails = 0;
   for( int q = 0; q < nops; ++q )
   {
      int k = s.below(2), kc = s.below(2), kd = s.below(2);
      int op = s.below(10);
      if( op == 7 ) { renew(X[k], *xs, true); c.desc << " new x" << k; continue; }
      if( op == 8 ) { renew(YC[kc], *cs, false); c.desc << " new yc" << kc; continue; }
      if( op == 9 ) { renew(YD[kd], *ds, false); c.desc << " new yd" << kd; continue; }
      if( ((op == 2 || op == 4) && cs->Dim() == 0) || ((op == 3 || op == 5) && ds->Dim() == 0) )
         continue;   // never asked for by the algorithm
      failnow = 0;
      mode = faults ? s.weighted({3, 2, 1}) : 0;
      cnt = 0;
      after = mode ? s.weighted({3, 2, 2, 1, 1}) : 0;
      onlyk = mode && s.flip() ? (int)s.pick(std::vector<int>{K_F, K_GRAD, K_G, K_JAC, K_HESS}) : -1;
      const Vector& x = *X[k];
      Vec fx(p.n);
      {
         Vec xr = dvals(x);
         for( int i = 0; i < p.n; ++i )
            fx[i] = p.xl[i];
         for( size_t i = 0; i < xv.size(); ++i )
            fx[xv[i]] = xr[i];
      }
      static const char* on[] = {"f", "grad", "c", "d", "jac_c", "jac_d", "hess"};
      c.desc << " " << on[op] << "(x" << k << (op == 6 ? pbt::fmt(",yc%d,yd%d", kc, kd) : std::string("")) << ")" << (mode ? pbt::fmt("!%d@%d%s", mode, after, onlyk >= 0 ? kindname[onlyk] : "") : std::string(""));
      bool ret = false;
      Vec got, want;
      double tol = 0;
      double one = 0;
      long before = 0;
      for( int kk = 0; kk < K_COUNT; ++kk )
         before += t->out.calls[kk];
      double mag = 1;
      Vec dir;
      auto jref = [&](const std::vector<int>& rows, const Vec& v)
      {
         Vec full(p.n, 0.);
         for( size_t i = 0; i < xv.size(); ++i )
            full[xv[i]] = v[i];
         Vec r;
         for( int j : rows )
         {
            Vec gr(p.n, 0.);
            p.g[j].grad(fx.data(), gr.data());
            double sum = 0;
            for( int i = 0; i < p.n; ++i )
            {
               if( fdj && p.fixed(i) )
                  continue;   // not perturbed
               sum += gr[i] * full[i];
               mag += std::fabs(gr[i] * full[i]);
            }
            mag += std::fabs(p.g[j].val(fx.data()));
            Vec H(p.n * p.n, 0.);
            p.g[j].hess(fx.data(), H.data(), p.n, 1.);
            mag += maxabs(H) * maxabs(full);
            r.push_back(sum);
         }
         return r;
      };
      switch( op )
      {
         case 0:
            ret = ad->Eval_f(x, one);
            got.push_back(one);
            want.push_back(p.f.val(fx.data()));
            break;
         case 1:
         {
            SmartPtr<Vector> gv = xs->MakeNew();
            ret = ad->Eval_grad_f(x, *gv);
            if( ret )
               got = dvals(*gv);
            Vec gr(p.n, 0.);
            p.f.grad(fx.data(), gr.data());
            for( int i : xv )
               want.push_back(fdg && p.fixed(i) ? 0. : gr[i]);
            if( fdg )
            {
               Vec H(p.n * p.n, 0.);
               p.f.hess(fx.data(), H.data(), p.n, 1.);
               tol = 1e-5 * (1 + std::fabs(p.f.val(fx.data())) + maxabs(H) + maxabs(gr));
            }
            break;
         }
         case 2: case 3:
         {
            SmartPtr<Vector> v = (op == 2 ? cs : ds)->MakeNew();
            v->Set(0.);
            ret = op == 2 ? ad->Eval_c(x, *v) : ad->Eval_d(x, *v);
            if( ret )
               got = dvals(*v);
            for( int j : op == 2 ? ec : ic )
               want.push_back(p.g[j].val(fx.data()) - (op == 2 ? p.gl[j] : 0.));
            if( op == 2 && fc )
               for( int i = 0; i < p.n; ++i )
                  if( p.fixed(i) )
                     want.push_back(fx[i] - p.xl[i]);
            break;
         }
         case 4: case 5:
         {
            SmartPtr<Matrix> J = (op == 4 ? jcs : jds)->MakeNew();
            ret = op == 4 ? ad->Eval_jac_c(x, *J) : ad->Eval_jac_d(x, *J);
            SmartPtr<Vector> v = xs->MakeNew(), r = (op == 4 ? cs : ds)->MakeNew();
            Vec dv(xs->Dim());
            for( auto& e : dv )
               e = s.integer(-3, 3);
            dynamic_cast<DenseVector&>(*v).SetValues(dv.data());
            if( ret )
            {
               r->Set(0.);
               J->MultVector(1., *v, 0., *r);
               got = dvals(*r);
            }
            want = jref(op == 4 ? ec : ic, dv);
            if( op == 4 && fc )
               for( size_t i = 0; i < xv.size(); ++i )
                  if( p.fixed(xv[i]) )
                     want.push_back(dv[i]);
            tol = fdj ? 1e-5 * mag : 1e-12 * mag;
            break;
         }
         case 6:
         {
            SmartPtr<SymMatrix> H = hs->MakeNewSymMatrix();
            double of = s.flip(0.2) ? 0. : s.nice(-2, 2);
            ret = ad->Eval_h(x, of, *YC[kc], *YD[kd], *H);
            Vec dv(xs->Dim());
            for( auto& e : dv )
               e = s.integer(-3, 3);
            SmartPtr<Vector> v = xs->MakeNew(), r = xs->MakeNew();
            dynamic_cast<DenseVector&>(*v).SetValues(dv.data());
            if( ret )
            {
               r->Set(0.);
               H->MultVector(1., *v, 0., *r);
               got = dvals(*r);
            }
            Vec D(p.n * p.n, 0.), yc = dvals(*YC[kc]), yd = dvals(*YD[kd]), full(p.n, 0.);
            p.f.hess(fx.data(), D.data(), p.n, of);
            mag += maxabs(D);
            for( size_t j = 0; j < ec.size(); ++j )
            {
               p.g[ec[j]].hess(fx.data(), D.data(), p.n, yc[j]);
               mag += maxabs(D);
            }
            for( size_t j = 0; j < ic.size(); ++j )
            {
               p.g[ic[j]].hess(fx.data(), D.data(), p.n, yd[j]);
               mag += maxabs(D);
            }
            for( size_t i = 0; i < xv.size(); ++i )
               full[xv[i]] = dv[i];
            for( int i : xv )
            {
               double sum = 0;
               for( int j = 0; j < p.n; ++j )
                  sum += D[i * p.n + j] * full[j];
               want.push_back(sum);
            }
            tol = 1e-12 * mag * 10;
            break;
         }
      }
      long calls = -before;
      for( int kk = 0; kk < K_COUNT; ++kk )
         calls += t->out.calls[kk];
      ++evals;
      mode = 0;
      if( !t->out.viol.empty() )
         c.fail(t->out.viol[0].first.c_str(), "%s", t->out.viol[0].second.c_str());
      if( failnow )
      {
         ++nfails;
         PBT_CHECK(c, !ret, "failure-ignored", "%s: %ld of %ld calls of the user's functions failed, but the evaluation reports success", on[op], failnow, calls);
         continue;
      }
      PBT_CHECK(c, ret, "failed", "%s: no call of the user's functions failed (%ld calls), but the evaluation reports a failure", on[op], calls);
      PBT_CHECK(c, got.size() == want.size(), "size", "%s: %d values instead of %d", on[op], (int)got.size(), (int)want.size());
      bool bad = false;
      for( double w : want )
         bad = bad || !std::isfinite(w);
      if( bad )
         continue;
      for( size_t i = 0; i < got.size(); ++i )
         PBT_CHECK(c, std::fabs(got[i] - want[i]) <= tol + 1e-12 * (1 + std::fabs(want[i])), "value", "%s: component %d is %.17g instead of %.17g (%ld calls of the user's functions)", on[op], (int)i, got[i], want[i], calls);
   }
   c.nontrivial = faults ? nfails > 0 : evals > 3;
   if( fdj && p.m > 0 )
      c.label("finite difference Jacobian");
   if( fdg )
      c.label("finite difference gradient");
}
}
#endif
