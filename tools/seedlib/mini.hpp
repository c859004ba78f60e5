// A small problem with dense derivatives given by virtual functions.
#ifndef MINI_HPP
#define MINI_HPP
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include <vector>
#include <cmath>
#include <cstdio>
using namespace Ipopt;
typedef std::vector<double> V;
struct Mini : TNLP
{
   int n, m;
   V xl, xu, gl, gu, x0;
   // results
   SolverReturn st = UNASSIGNED;
   V x, zl, zu, g, lam;
   double obj = 0;
   int finals = 0, iters = 0;
   Mini(int n_, int m_) : n(n_), m(m_), xl(n, -2e19), xu(n, 2e19), gl(m, 0.), gu(m, 0.), x0(n, 0.) { }
   virtual double f(const double* x) = 0;
   virtual void df(const double* x, double* d) = 0;
   virtual void ddf(const double* x, double* h) { }               // dense n*n, add to h
   virtual void con(const double* x, double* g) { }
   virtual void dcon(const double* x, double* j) { }              // dense, row by row
   virtual void ddcon(const double* x, const double* l, double* h) { }
   bool get_nlp_info(Index& n_, Index& m_, Index& nj, Index& nh, IndexStyleEnum& s) override
   {
      n_ = n, m_ = m, nj = n * m, nh = n * (n + 1) / 2, s = C_STYLE;
      return true;
   }
   bool get_bounds_info(Index, Number* l, Number* u, Index, Number* a, Number* b) override
   {
      for( int i = 0; i < n; ++i ) l[i] = xl[i], u[i] = xu[i];
      for( int i = 0; i < m; ++i ) a[i] = gl[i], b[i] = gu[i];
      return true;
   }
   bool get_starting_point(Index, bool ix, Number* xs, bool iz, Number* l, Number* u, Index, bool il, Number* la) override
   {
      if( ix ) for( int i = 0; i < n; ++i ) xs[i] = x0[i];
      if( iz ) for( int i = 0; i < n; ++i ) l[i] = zl.empty() ? 1 : zl[i], u[i] = zu.empty() ? 1 : zu[i];
      if( il ) for( int i = 0; i < m; ++i ) la[i] = lam.empty() ? 0 : lam[i];
      return true;
   }
   bool eval_f(Index, const Number* x, bool, Number& v) override { v = f(x); return true; }
   bool eval_grad_f(Index, const Number* x, bool, Number* v) override { df(x, v); return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* v) override { con(x, v); return true; }
   bool eval_jac_g(Index, const Number* x, bool, Index, Index, Index* r, Index* c, Number* v) override
   {
      if( !v )
      {
         for( int i = 0; i < m; ++i )
            for( int j = 0; j < n; ++j )
               r[i * n + j] = i, c[i * n + j] = j;
         return true;
      }
      for( int k = 0; k < n * m; ++k ) v[k] = 0;
      dcon(x, v);
      return true;
   }
   bool eval_h(Index, const Number* x, bool, Number s, Index, const Number* l, bool, Index, Index* r, Index* c, Number* v) override
   {
      if( !v )
      {
         for( int i = 0, k = 0; i < n; ++i )
            for( int j = 0; j <= i; ++j, ++k )
               r[k] = i, c[k] = j;
         return true;
      }
      V h(n * n, 0.), h2(n * n, 0.);
      ddf(x, h.data());
      ddcon(x, l, h2.data());
      for( int i = 0, k = 0; i < n; ++i )
         for( int j = 0; j <= i; ++j, ++k )
            v[k] = s * h[i * n + j] + h2[i * n + j];
      return true;
   }
   bool intermediate_callback(AlgorithmMode, Index it, Number, Number, Number, Number, Number, Number, Number, Number, Index, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      iters = it;
      return true;
   }
   void finalize_solution(SolverReturn s, Index, const Number* xs, const Number* l, const Number* u, Index, const Number* gs, const Number* la, Number o, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      ++finals;
      st = s, obj = o;
      x.assign(xs, xs + n), zl.assign(l, l + n), zu.assign(u, u + n), g.assign(gs, gs + m), lam.assign(la, la + m);
   }
};
// min 1/2 x'Qx + c'x  subject to  Ax between gl and gu
struct QP : Mini
{
   V Q, c, A;
   QP(int n_, int m_) : Mini(n_, m_), Q(n_ * n_, 0.), c(n_, 0.), A(n_ * m_, 0.) { }
   double f(const double* x) override
   {
      double v = 0;
      for( int i = 0; i < n; ++i )
      {
         v += c[i] * x[i];
         for( int j = 0; j < n; ++j ) v += 0.5 * Q[i * n + j] * x[i] * x[j];
      }
      return v;
   }
   void df(const double* x, double* d) override
   {
      for( int i = 0; i < n; ++i )
      {
         d[i] = c[i];
         for( int j = 0; j < n; ++j ) d[i] += Q[i * n + j] * x[j];
      }
   }
   void ddf(const double*, double* h) override { for( int i = 0; i < n * n; ++i ) h[i] += Q[i]; }
   void con(const double* x, double* g) override
   {
      for( int i = 0; i < m; ++i )
      {
         g[i] = 0;
         for( int j = 0; j < n; ++j ) g[i] += A[i * n + j] * x[j];
      }
   }
   void dcon(const double*, double* j) override { for( int i = 0; i < n * m; ++i ) j[i] = A[i]; }
};
inline SmartPtr<IpoptApplication> app()
{
   SmartPtr<IpoptApplication> a = new IpoptApplication(false);
   a->Options()->SetIntegerValue("print_level", 0);
   a->Options()->SetStringValue("sb", "yes");
   return a;
}
inline int bad(const char* what)
{
   std::printf("WRONG: %s\n", what);
   return 1;
}
#endif
