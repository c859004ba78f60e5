// P40: vector operations equal their mathematical definition in every representation.
#include "pbt.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpBlas.hpp"
#include <cfloat>
#include <cmath>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;
typedef std::vector<double> V;

static SmartPtr<const VectorSpace> gen_space(Ctx& c, int depth)
{
   pbt::Src& s = c.src;
   if( depth == 0 || s.flip(0.5) )
   {
      int n = s.flip(0.1) ? 0 : s.flip(0.2) ? 1 : s.integer(1, 9);
      c.desc << " D" << n;
      return new DenseVectorSpace(n);
   }
   int k = s.integer(1, 3);
   c.desc << " C(";
   std::vector<SmartPtr<const VectorSpace> > ch(k);
   int n = 0;
   for( auto& x : ch )
   {
      x = gen_space(c, depth - 1);
      n += x->Dim();
   }
   c.desc << " )";
   SmartPtr<CompoundVectorSpace> sp = new CompoundVectorSpace(k, n);
   for( int i = 0; i < k; ++i )
      sp->SetCompSpace(i, *ch[i]);
   return GetRawPtr(sp);
}
template<class F> static void leaves(const Vector& v, F f)
{
   const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v);
   if( !cv )
   {
      f(static_cast<const DenseVector&>(v));
      return;
   }
   for( Index i = 0; i < cv->NComps(); ++i )
      leaves(*cv->GetComp(i), f);
}
template<class F> static void leaves_nc(Vector& v, F f)
{
   CompoundVector* cv = dynamic_cast<CompoundVector*>(&v);
   if( !cv )
   {
      f(static_cast<DenseVector&>(v));
      return;
   }
   for( Index i = 0; i < cv->NComps(); ++i )
      leaves_nc(*cv->GetCompNonConst(i), f);
}
static V flat(const Vector& v)
{
   V r;
   leaves(v, [&](const DenseVector & d)
   {
      const double* x = d.ExpandedValues();
      r.insert(r.end(), x, x + d.Dim());
   });
   return r;
}
static int nhomog(const Vector& v)
{
   int k = 0;
   leaves(v, [&](const DenseVector & d)
   {
      k += d.IsHomogeneous();
   });
   return k;
}
static double val(pbt::Src& s)
{
   switch( s.below(6) )
   {
      case 0: return 0;
      case 1: return s.integer(-3, 3);
      case 2: return 1;
      case 3: return s.logreal(1e-8, 1e8) * (s.flip() ? 1 : -1);
      default: return s.nice(-5, 5);
   }
}
static void fill(Ctx& c, Vector& x, V& m)
{
   pbt::Src& s = c.src;
   if( s.flip(0.25) )
   {
      double a = val(s);
      x.Set(a);
      m.assign(m.size(), a);
      return;
   }
   size_t p = 0;
   leaves_nc(x, [&](DenseVector & d)
   {
      int how = s.below(3);
      double a = val(s);
      V v(d.Dim());
      for( double& q : v )
         q = how == 0 ? a : val(s);
      if( how == 0 )
         d.Set(a);
      else if( how == 1 )
         d.SetValues(v.data());
      else
      {
         double* w = d.Values();
         for( size_t i = 0; i < v.size(); ++i )
            w[i] = v[i];
      }
      for( double q : v )
         m[p++] = q;
   });
}
static void f_ops(Ctx& c)
{
   pbt::Src& s = c.src;
   SmartPtr<const VectorSpace> sp = gen_space(c, 2);
   int n = sp->Dim();
   const int K = 4;
   SmartPtr<Vector> x[K];
   V m[K];
   c.desc << "\n";
   for( int i = 0; i < K; ++i )
   {
      x[i] = sp->MakeNew();
      m[i].resize(n);
      fill(c, *x[i], m[i]);
   }
   int nops = s.integer(1, 30), done = 0;
   bool mixed = false;
   for( int op = 0; op < nops; ++op )
   {
      int t = s.below(K), p = s.below(K), q = s.below(K);
      double a = s.flip() ? s.integer(-1, 1) : val(s), b = s.flip() ? s.integer(-1, 1) : val(s), cc = s.flip() ? s.integer(-1, 1) : val(s);
      V w = m[t], sc(n, 0.);
      int what = s.below(34);
      // the result of an operation must not be one of its arguments
      if( p == t )
         p = (t + 1) % K;
      if( q == t )
         q = (t + 2) % K;
      const V& P = m[p];
      const V& Q = m[q];
      const V T = m[t];
      bool scalar = false, skip = false;
      double got = 0, want = 0, tol = 0;
      mixed = mixed || nhomog(*x[t]) != nhomog(*x[p]);
      auto all = [&](auto ok)
      {
         for( int i = 0; i < n; ++i )
            if( !ok(i) )
               return false;
         return true;
      };
#define EACH(expr, scale) for( int i = 0; i < n; ++i ) { double v_ = (expr); sc[i] = (scale); w[i] = v_; }
      c.desc << fmt("op %d: x%d <- x%d x%d, %g %g %g\n", what, t, p, q, a, b, cc);
      switch( what )
      {
         case 0: x[t]->Copy(*x[p]); w = P; break;
         case 1: x[t]->Scal(a); EACH(a * T[i], std::fabs(w[i] * a)) break;
         case 2: x[t]->Axpy(a, *x[p]); EACH(T[i] + a * P[i], std::fabs(T[i]) + std::fabs(a * P[i])) break;
         case 3:
            scalar = true, got = x[p]->Dot(*x[q]);
            for( int i = 0; i < n; ++i ) want += P[i] * Q[i], tol += std::fabs(P[i] * Q[i]);
            break;
         case 4:
            scalar = true, got = x[p]->Nrm2();
            for( double v : P ) want += v * v;
            want = tol = std::sqrt(want);
            break;
         case 5: scalar = true, got = x[p]->Asum(); for( double v : P ) want += std::fabs(v); tol = want; break;
         case 6: scalar = true, got = x[p]->Amax(); for( double v : P ) want = std::max(want, std::fabs(v)); break;
         case 7: x[t]->Set(a); w.assign(n, a); break;
         case 8:
            if( !all([&](int i) { return P[i] != 0; }) ) { skip = true; break; }
            x[t]->ElementWiseDivide(*x[p]); EACH(T[i] / P[i], std::fabs(T[i] / P[i])) break;
         case 9: x[t]->ElementWiseMultiply(*x[p]); EACH(T[i] * P[i], std::fabs(T[i] * P[i])) break;
         case 10: x[t]->ElementWiseSelect(*x[p]); EACH(T[i] > 0 ? P[i] : T[i] < 0 ? -P[i] : 0., 0) break;
         case 11: x[t]->ElementWiseMax(*x[p]); EACH(std::max(T[i], P[i]), 0) break;
         case 12: x[t]->ElementWiseMin(*x[p]); EACH(std::min(T[i], P[i]), 0) break;
         case 13:
            if( !all([&](int i) { return T[i] != 0; }) ) { skip = true; break; }
            x[t]->ElementWiseReciprocal(); EACH(1. / T[i], std::fabs(1 / T[i])) break;
         case 14: x[t]->ElementWiseAbs(); EACH(std::fabs(T[i]), 0) break;
         case 15:
            if( !all([&](int i) { return T[i] >= 0; }) ) { skip = true; break; }
            x[t]->ElementWiseSqrt(); EACH(std::sqrt(T[i]), std::sqrt(T[i])) break;
         case 16: x[t]->ElementWiseSgn(); EACH(T[i] > 0 ? 1. : T[i] < 0 ? -1. : 0., 0) break;
         case 17: x[t]->AddScalar(a); EACH(T[i] + a, std::fabs(T[i]) + std::fabs(a)) break;
         case 18: if( n == 0 ) { skip = true; break; } scalar = true; got = x[p]->Max(); want = -DBL_MAX; for( double v : P ) want = std::max(want, v); break;
         case 19: if( n == 0 ) { skip = true; break; } scalar = true; got = x[p]->Min(); want = DBL_MAX; for( double v : P ) want = std::min(want, v); break;
         case 20: scalar = true; got = x[p]->Sum(); for( double v : P ) want += v, tol += std::fabs(v); break;
         case 21:
            if( !all([&](int i) { return P[i] > 0; }) ) { skip = true; break; }
            scalar = true; got = x[p]->SumLogs(); for( double v : P ) want += std::log(v), tol += std::fabs(std::log(v)) + 1;
            break;
         case 22: x[t]->AddOneVector(a, *x[p], cc); EACH(a * P[i] + cc * T[i], std::fabs(a * P[i]) + std::fabs(cc * T[i])) break;
         case 23:
         case 24:
            x[t]->AddTwoVectors(a, *x[p], b, *x[q], cc); EACH(a * P[i] + b * Q[i] + cc * T[i], std::fabs(a * P[i]) + std::fabs(b * Q[i]) + std::fabs(cc * T[i])) break;
         case 25:
         {
            double tau = s.real(0, 1);
            if( !all([&](int i) { return P[i] >= 0; }) ) { skip = true; break; }
            scalar = true; got = x[p]->FracToBound(*x[q], tau); want = 1;
            for( int i = 0; i < n; ++i )
               if( Q[i] < 0 )
                  want = std::min(want, -tau * P[i] / Q[i]);
            tol = want;
            break;
         }
         case 26:
         case 27:
            if( !all([&](int i) { return Q[i] != 0; }) ) { skip = true; break; }
            x[t]->AddVectorQuotient(a, *x[p], *x[q], cc); EACH(a * P[i] / Q[i] + cc * T[i], std::fabs(a * P[i] / Q[i]) + std::fabs(cc * T[i])) break;
         case 28: fill(c, *x[t], w); break;
         case 29: x[t] = x[p]->MakeNewCopy(); w = P; break;
         case 30:
         {
            // something that is not finite must be noticed
            bool bad = s.flip() && n > 0;
            SmartPtr<Vector> y = x[p]->MakeNewCopy();
            if( bad )
            {
               int pos = s.below(n), k = 0;
               bool hom = s.flip(0.3);
               double v = s.flip() ? NAN : s.flip() ? INFINITY : -INFINITY;
               leaves_nc(*y, [&](DenseVector & d)
               {
                  if( pos >= k && pos < k + d.Dim() )
                  {
                     if( hom ) d.Set(v);
                     else d.Values()[pos - k] = v;
                  }
                  k += d.Dim();
               });
            }
            PBT_CHECK(c, y->HasValidNumbers() == !bad, "valid", "operation %d: HasValidNumbers is %d", op, bad);
            break;
         }
         case 31:
         case 32:
         {
            DenseVector* dt = dynamic_cast<DenseVector*>(GetRawPtr(x[t]));
            if( !dt ) { skip = true; break; }
            int len = s.integer(0, n), pos = s.integer(0, n - len);
            SmartPtr<DenseVectorSpace> sub = new DenseVectorSpace(len);
            SmartPtr<DenseVector> y = sub->MakeNewDenseVector();
            c.desc << fmt("  subvector of length %d at %d\n", len, pos);
            if( what == 31 )
            {
               V v(len);
               double h = val(s);
               bool hom = s.flip();
               for( double& e : v )
                  e = hom ? h : val(s);
               if( hom ) y->Set(h);
               else y->SetValues(v.data());
               dt->CopyToPos(pos, *y);
               for( int i = 0; i < len; ++i )
                  w[pos + i] = v[i];
            }
            else
            {
               y->CopyFromPos(pos, *dt);
               V v = flat(*y);
               for( int i = 0; i < len; ++i )
                  PBT_CHECK(c, v[i] == T[pos + i], "copyfrompos", "operation %d: element %d is %g instead of %g", op, i, v[i], T[pos + i]);
            }
            break;
         }
         default:
         {
            // print, must not change anything
            CompoundVector* cv = dynamic_cast<CompoundVector*>(GetRawPtr(x[t]));
            if( !cv ) { skip = true; break; }
            // replace a component by a copy
            int k = s.below(cv->NComps());
            SmartPtr<Vector> y = cv->GetComp(k)->MakeNewCopy();
            cv->SetCompNonConst(k, *y);
         }
      }
      if( skip )
         continue;
      ++done;
      if( scalar )
      {
         PBT_CHECK(c, std::fabs(got - want) <= 1e-13 * (tol + (tol > 0 ? 0 : 0)) * (1 + n) || got == want, fmt("scalar-%d", what).c_str(), "operation %d (%d): %.17g instead of %.17g", op, what, got, want);
         w = T;
      }
      m[t] = w;
      for( int k = 0; k < K; ++k )
      {
         V g = flat(*x[k]);
         PBT_CHECK(c, (int)g.size() == n, "size", "size %d", (int)g.size());
         for( int i = 0; i < n; ++i )
            PBT_CHECK(c, g[i] == m[k][i] || (k == t && !scalar && std::fabs(g[i] - m[k][i]) <= 1e-14 * (sc[i] + std::fabs(m[k][i]))), k == t ? fmt("value-%d", what).c_str() : "operand-changed",
                      "operation %d (%d): element %d of x%d is %.17g instead of %.17g", op, what, i, k, g[i], m[k][i]);
         m[k] = g;
      }
      // too large or not finite: start again
      for( double v : m[t] )
         if( !(std::fabs(v) < 1e60) || (v != 0 && std::fabs(v) < 1e-60) )
         {
            fill(c, *x[t], m[t]);
            break;
         }
   }
   c.nontrivial = done >= 2 && n >= 2;
   c.label(mixed ? "mixed representations" : "same representations");
}
// wrappers of BLAS routines
static void f_blas(Ctx& c)
{
   pbt::Src& s = c.src;
   int n = s.integer(0, 8), ix = s.integer(1, 3), iy = s.integer(1, 3);
   V x(1 + n * ix), y(1 + n * iy);
   for( double& v : x ) v = val(s);
   for( double& v : y ) v = val(s);
   double a = val(s), w = 0, tol = 0;
   c.desc << fmt("n %d strides %d %d\n", n, ix, iy);
   for( int i = 0; i < n; ++i ) w += x[i * ix] * y[i * iy], tol += std::fabs(x[i * ix] * y[i * iy]);
   double g = IpBlasDot(n, x.data(), ix, y.data(), iy);
   PBT_CHECK(c, std::fabs(g - w) <= 1e-13 * tol, "dot", "%.17g instead of %.17g", g, w);
   double nn = 0, as = 0, am = -1;
   int im = 0;
   for( int i = 0; i < n; ++i )
   {
      double v = std::fabs(x[i * ix]);
      nn += v * v, as += v;
      if( v > am ) am = v, im = i + 1;
   }
   PBT_CHECK(c, std::fabs(IpBlasNrm2(n, x.data(), ix) - std::sqrt(nn)) <= 1e-13 * std::sqrt(nn), "nrm2", "norm");
   PBT_CHECK(c, std::fabs(IpBlasAsum(n, x.data(), ix) - as) <= 1e-13 * as, "asum", "asum");
   if( n > 0 )
      PBT_CHECK(c, IpBlasIamax(n, x.data(), ix) == im, "iamax", "%d instead of %d", (int)IpBlasIamax(n, x.data(), ix), im);
   V y0 = y;
   IpBlasAxpy(n, a, x.data(), ix, y.data(), iy);
   for( size_t i = 0; i < y.size(); ++i )
   {
      bool in = (int)i % iy == 0 && (int)i / iy < n;
      double want = in ? y0[i] + a * x[i / iy * ix] : y0[i];
      PBT_CHECK(c, std::fabs(y[i] - want) <= 1e-14 * (std::fabs(y0[i]) + (in ? std::fabs(a * x[i / iy * ix]) : 0)), "axpy", "element %d", (int)i);
   }
   IpBlasCopy(n, x.data(), ix, y.data(), iy);
   for( int i = 0; i < n; ++i )
      PBT_CHECK(c, y[i * iy] == x[i * ix], "copy", "element %d", i);
   IpBlasScal(n, a, y.data(), iy);
   for( int i = 0; i < n; ++i )
      PBT_CHECK(c, std::fabs(y[i * iy] - a * x[i * ix]) <= 1e-15 * std::fabs(a * x[i * ix]), "scal", "element %d", i);
   c.nontrivial = n >= 2;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P40", "at least two operations on vectors of dimension at least two",
      {{"ops", f_ops, 600000, 20000000}, {"blas", f_blas, 100000, 2000000}}
   };
   return pbt::run_main(argc, argv, k);
}
