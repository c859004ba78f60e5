// Random nests of Ipopt matrices together with the dense matrix they stand for.
#ifndef MATNEST_HPP
#define MATNEST_HPP
#include "pbt.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include <cmath>
#include <cfloat>
#include <functional>
#include <set>
namespace mat
{
using namespace Ipopt;
using pbt::Ctx;
using pbt::Src;
using pbt::fmt;
typedef std::vector<double> V;
struct D  // dense reference
{
   int r = 0, c = 0;
   V a;
   D(int r_ = 0, int c_ = 0) : r(r_), c(c_), a((size_t)r_ * c_, 0.) { }
   double& operator()(int i, int j) { return a[(size_t)j * r + i]; }
   double operator()(int i, int j) const { return a[(size_t)j * r + i]; }
};
inline D transpose(const D& m)
{
   D t(m.c, m.r);
   for( int i = 0; i < m.r; ++i )
      for( int j = 0; j < m.c; ++j )
         t(j, i) = m(i, j);
   return t;
}
typedef SmartPtr<const VectorSpace> VSp;
inline int ncomp(const VectorSpace& s)
{
   const CompoundVectorSpace* c = dynamic_cast<const CompoundVectorSpace*>(&s);
   return c ? c->NCompSpaces() : 0;
}
inline VSp comp(const VectorSpace& s, int i)
{
   const CompoundVectorSpace* c = dynamic_cast<const CompoundVectorSpace*>(&s);
   if( !c )
      return &s;
   return c->GetCompSpace(i);
}
// flat dense or one level of compound
inline VSp gen_space(Ctx& c, int depth, int maxn = 6)
{
   Src& s = c.src;
   if( depth == 0 || s.flip(0.5) )
   {
      int n = s.flip(0.1) ? 0 : s.integer(1, maxn);
      c.desc << " D" << n;
      return new DenseVectorSpace(n);
   }
   int k = s.integer(1, 3), n = 0;
   c.desc << " C(";
   std::vector<VSp> ch(k);
   for( auto& x : ch )
   {
      x = gen_space(c, depth - 1, maxn);
      n += x->Dim();
   }
   c.desc << " )";
   SmartPtr<CompoundVectorSpace> sp = new CompoundVectorSpace(k, n);
   for( int i = 0; i < k; ++i )
      sp->SetCompSpace(i, *ch[i]);
   return GetRawPtr(sp);
}
template<class F> void leaves_nc(Vector& v, F f)
{
   CompoundVector* cv = dynamic_cast<CompoundVector*>(&v);
   if( !cv )
   {
      f(static_cast<DenseVector&>(v));
      return;
   }
   for( Index i = 0; i < cv->NComps(); ++i )
      leaves_nc(*cv->GetCompNonConst(i), f);
}
template<class F> void leaves(const Vector& v, F f)
{
   const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v);
   if( !cv )
   {
      f(static_cast<const DenseVector&>(v));
      return;
   }
   for( Index i = 0; i < cv->NComps(); ++i )
      leaves(*cv->GetComp(i), f);
}
inline V flat(const Vector& v)
{
   V r;
   leaves(v, [&](const DenseVector & d)
   {
      const double* x = d.ExpandedValues();
      r.insert(r.end(), x, x + d.Dim());
   });
   return r;
}
inline double val(Src& s)
{
   switch( s.below(5) )
   {
      case 0: return s.integer(-2, 2);
      case 1: return s.logreal(1e-6, 1e6) * (s.flip() ? 1 : -1);
      default: return s.nice(-5, 5);
   }
}
inline double nz(Src& s)
{
   double v = val(s);
   return v == 0 ? 1.5 : v;
}
// fill with generated values, each leaf homogeneous or not
inline V fill(Src& s, Vector& x, const std::function<double(Src&)>& g)
{
   V m;
   leaves_nc(x, [&](DenseVector & d)
   {
      if( s.flip(0.3) )
      {
         double a = g(s);
         d.Set(a);
         m.insert(m.end(), d.Dim(), a);
         return;
      }
      V v(d.Dim());
      for( double& q : v )
         q = g(s);
      d.SetValues(v.data());
      m.insert(m.end(), v.begin(), v.end());
   });
   return m;
}
inline void put(Vector& x, const V& v)
{
   size_t p = 0;
   leaves_nc(x, [&](DenseVector & d)
   {
      d.SetValues(v.data() + p);
      p += d.Dim();
   });
}
struct Mat
{
   SmartPtr<Matrix> m;
   VSp row, col;
   D d;          // what it stands for
   D scale;      // sum of absolute values (for tolerances)
   bool sym = false;
   bool amax = true;      // row and column norms available
   bool trip = true;      // known to TripletHelper
   bool exact_amax = true; // one entry per position (norms are over single entries otherwise)
   std::function<void(Src&)> poison;  // put something not finite somewhere
   int kinds = 0;
   // new values for the same structure
   std::function<void(Src&)> refill;
};
struct Opt
{
   bool amax = false;     // only types with row and column norms
   bool trip = false;     // only types known to TripletHelper
   bool diag = false;     // only diagonal matrices
};
Mat gen(Ctx& c, VSp R, VSp C, int depth, const Opt& o);
Mat gen_sym(Ctx& c, VSp S, int depth, const Opt& o);
inline D dabs(const D& x)
{
   D r = x;
   for( double& v : r.a )
      v = std::fabs(v);
   return r;
}
inline double (*&bad_hook())(Src&)   // other values to put somewhere instead
{
   static double (*f)(Src&) = NULL;
   return f;
}
inline double bad(Src& s)
{
   if( bad_hook() )
      return bad_hook()(s);
   return s.flip() ? NAN : s.flip() ? INFINITY : -INFINITY;
}
inline void pattern(Ctx& c, int r, int n, bool lower, std::vector<Index>& I, std::vector<Index>& J)
{
   Src& s = c.src;
   int nnz = r && n ? s.integer(0, std::min(2 * (r + n), 14)) : 0;
   for( int k = 0; k < nnz; ++k )
   {
      int i = s.below(r) + 1, j = s.below(n) + 1;
      if( lower && s.flip() )
         std::swap(i, j);
      I.push_back(i);
      J.push_back(j);
   }
}
inline Mat sum_terms(Ctx& c, VSp R, VSp C, int depth, const Opt& o, bool sym)
{
   Src& s = c.src;
   Mat r;
   r.row = R, r.col = C, r.sym = sym, r.amax = false;
   r.d = D(R->Dim(), C->Dim());
   r.scale = r.d;
   int k = s.integer(1, 3);
   c.desc << " Sum" << k << "(";
   std::vector<Mat> t;
   std::vector<double> f;
   for( int i = 0; i < k; ++i )
   {
      t.push_back(sym ? gen_sym(c, R, depth - 1, o) : gen(c, R, C, depth - 1, o));
      f.push_back(s.flip() ? 1. : val(s));
      r.trip = r.trip && t[i].trip;
      for( size_t q = 0; q < r.d.a.size(); ++q )
      {
         r.d.a[q] += f[i] * t[i].d.a[q];
         r.scale.a[q] += std::fabs(f[i]) * t[i].scale.a[q];
      }
      c.desc << " *" << f[i];
      if( t[i].poison && !r.poison )
         r.poison = t[i].poison;
      else if( t[i].poison && s.flip() )
         r.poison = t[i].poison;
   }
   c.desc << " )";
   if( sym )
   {
      SmartPtr<SumSymMatrixSpace> sp = new SumSymMatrixSpace(R->Dim(), k);
      for( int i = 0; i < k; ++i )
         sp->SetTermSpace(i, *static_cast<const SymMatrix*>(GetRawPtr(t[i].m))->OwnerSymMatrixSpace());
      SmartPtr<SumSymMatrix> m = sp->MakeNewSumSymMatrix();
      for( int i = 0; i < k; ++i )
         m->SetTerm(i, f[i], *static_cast<const SymMatrix*>(GetRawPtr(t[i].m)));
      r.m = GetRawPtr(m);
   }
   else
   {
      SmartPtr<SumMatrixSpace> sp = new SumMatrixSpace(R->Dim(), C->Dim(), k);
      for( int i = 0; i < k; ++i )
         sp->SetTermSpace(i, *t[i].m->OwnerSpace());
      SmartPtr<SumMatrix> m = sp->MakeNewSumMatrix();
      for( int i = 0; i < k; ++i )
         m->SetTerm(i, f[i], *t[i].m);
      r.m = GetRawPtr(m);
   }
   return r;
}
inline Mat gen_leaf_gen(Ctx& c, VSp R, VSp C, const Opt& o)
{
   Src& s = c.src;
   int n = R->Dim(), k = C->Dim();
   Mat r;
   r.row = R, r.col = C, r.d = D(n, k), r.scale = D(n, k);
   if( !o.trip && n > 0 && k > 0 && s.flip(0.4) )  // wrappers of BLAS and LAPACK want positive dimensions
   {
      c.desc << fmt(" Dense%dx%d", n, k);
      SmartPtr<DenseGenMatrixSpace> sp = new DenseGenMatrixSpace(n, k);
      SmartPtr<DenseGenMatrix> m = sp->MakeNewDenseGenMatrix();
      double* v = m->Values();
      for( int i = 0; i < n * k; ++i )
         r.d.a[i] = v[i] = val(s);
      r.scale = dabs(r.d);
      r.trip = false;
      if( n * k )
         r.poison = [m, n, k](Src & s2) { const_cast<DenseGenMatrix&>(*m).Values()[s2.below(n * k)] = bad(s2); };
      r.m = GetRawPtr(m);
      return r;
   }
   std::vector<Index> I, J;
   pattern(c, n, k, false, I, J);
   c.desc << fmt(" GenT%dx%d(", n, k);
   SmartPtr<GenTMatrixSpace> sp = new GenTMatrixSpace(n, k, (Index)I.size(), I.data(), J.data());
   SmartPtr<GenTMatrix> m = sp->MakeNewGenTMatrix();
   V v(I.size());
   std::set<std::pair<int, int> > seen;
   for( size_t e = 0; e < v.size(); ++e )
   {
      v[e] = val(s);
      r.d(I[e] - 1, J[e] - 1) += v[e];
      r.scale(I[e] - 1, J[e] - 1) += std::fabs(v[e]);
      r.exact_amax = r.exact_amax && seen.insert(std::make_pair(I[e], J[e])).second;
      c.desc << fmt(" %d,%d:%g", (int)I[e], (int)J[e], v[e]);
   }
   c.desc << ")";
   m->SetValues(v.data());
   int nnz = (int)v.size();
   if( nnz )
      r.poison = [m, nnz](Src & s2) { const_cast<GenTMatrix&>(*m).Values()[s2.below(nnz)] = bad(s2); };
   r.m = GetRawPtr(m);
   return r;
}
inline SmartPtr<MultiVectorMatrix> gen_mv(Ctx& c, VSp R, int k, D& d, std::function<void(Src&)>* poison = NULL, const std::function<double(Src&)>& g = val)
{
   Src& s = c.src;
   SmartPtr<MultiVectorMatrixSpace> sp = new MultiVectorMatrixSpace(k, *R);
   SmartPtr<MultiVectorMatrix> m = sp->MakeNewMultiVectorMatrix();
   d = D(R->Dim(), k);
   for( int j = 0; j < k; ++j )
   {
      SmartPtr<Vector> v = R->MakeNew();
      V q = fill(s, *v, g);
      for( size_t i = 0; i < q.size(); ++i )
         d((int)i, j) = q[i];
      if( s.flip() )
         m->SetVector(j, *v);
      else
         m->SetVectorNonConst(j, *v);
      if( poison && R->Dim() )
         *poison = [v](Src & s2)
      {
         int tot = v->Dim(), pos = s2.below(tot), k = 0;
         leaves_nc(const_cast<Vector&>(*v), [&](DenseVector & x)
         {
            if( pos >= k && pos < k + x.Dim() )
               x.Values()[pos - k] = bad(s2);
            k += x.Dim();
         });
      };
   }
   c.desc << fmt(" MV%dx%d", (int)R->Dim(), k);
   return m;
}
inline Mat gen(Ctx& c, VSp R, VSp C, int depth, const Opt& o)
{
   Src& s = c.src;
   int n = R->Dim(), k = C->Dim();
   bool rd = ncomp(*R) == 0, cd = ncomp(*C) == 0;
   Mat r;
   r.row = R, r.col = C, r.d = D(n, k), r.scale = D(n, k);
   if( GetRawPtr(R) == GetRawPtr(C) && s.flip(0.5) )
   {
      // symmetric matrices flatten to one triangle: inside of others only the diagonal ones
      Opt o2 = o;
      o2.diag = o.trip;
      return gen_sym(c, R, depth, o2);
   }
   for( ;; )
   {
      switch( s.below(9) )
      {
         case 0:
         case 1:
            if( !(rd && cd) )
               break;
            return gen_leaf_gen(c, R, C, o);
         case 2:
            c.desc << fmt(" Zero%dx%d", n, k);
            r.m = (new ZeroMatrixSpace(n, k))->MakeNewZeroMatrix();
            return r;
         case 3:
         {
            if( !(rd && cd) || k > n )
               break;
            std::vector<Index> p;
            for( int i = 0; i < n && (int)p.size() < k; ++i )
               if( s.flip(0.5) || n - i <= k - (int)p.size() )
                  p.push_back(i);
            if( s.flip(0.3) )  // any order
               for( int i = k - 1; i > 0; --i )
                  std::swap(p[i], p[s.below(i + 1)]);
            int off = s.flip(0.3);
            c.desc << fmt(" Exp%dx%d(", n, k);
            for( int j = 0; j < k; ++j )
            {
               r.d(p[j], j) = 1;
               c.desc << " " << p[j];
               p[j] += off;
            }
            c.desc << ")";
            r.scale = r.d;
            SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(n, k, p.data(), off);
            r.m = sp->MakeNewExpansionMatrix();
            return r;
         }
         case 4:
         {
            if( !(rd && cd) )
               break;
            c.desc << " Transpose(";
            Mat b = gen_leaf_gen(c, C, R, o);
            c.desc << " )";
            SmartPtr<TransposeMatrixSpace> sp = new TransposeMatrixSpace(GetRawPtr(b.m->OwnerSpace()));
            SmartPtr<TransposeMatrix> m = sp->MakeNewTransposeMatrix();
            Matrix* orig = const_cast<Matrix*>(GetRawPtr(m->OrigMatrix()));
            if( GenTMatrix* t = dynamic_cast<GenTMatrix*>(orig) )
            {
               t->SetValues(static_cast<const GenTMatrix&>(*b.m).Values());
               int nnz = t->Nonzeros();
               if( nnz )
                  r.poison = [m, t, nnz](Src & s2) { t->Values()[s2.below(nnz)] = bad(s2); };
            }
            else
               static_cast<DenseGenMatrix*>(orig)->Copy(static_cast<const DenseGenMatrix&>(*b.m));
            r.d = transpose(b.d), r.scale = transpose(b.scale);
            r.trip = b.trip, r.exact_amax = b.exact_amax;
            r.m = GetRawPtr(m);
            return r;
         }
         case 5:
         {
            if( o.amax || o.trip || !cd || k > 5 )
               break;
            SmartPtr<MultiVectorMatrix> m = gen_mv(c, R, k, r.d, &r.poison);
            r.scale = dabs(r.d), r.amax = r.trip = false;
            r.m = GetRawPtr(m);
            return r;
         }
         case 6:
         {
            if( o.amax || !rd || !cd || n > 5 )
               break;
            // rows are vectors, some of them missing, lifted into a bigger space
            SmartPtr<const ExpansionMatrix> P;
            VSp small = C;
            D pd(k, k);
            if( s.flip() )
            {
               int q = s.integer(0, k);
               std::vector<Index> p;
               for( int i = 0; i < k && (int)p.size() < q; ++i )
                  if( s.flip(0.5) || k - i <= q - (int)p.size() )
                     p.push_back(i);
               SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(k, q, p.data(), 0);
               P = sp->MakeNewExpansionMatrix();
               small = new DenseVectorSpace(q);
               pd = D(k, q);
               for( int j = 0; j < q; ++j )
                  pd(p[j], j) = 1;
            }
            else
               for( int j = 0; j < k; ++j )
                  pd(j, j) = 1;
            SmartPtr<ExpandedMultiVectorMatrixSpace> sp = new ExpandedMultiVectorMatrixSpace(n, *small, P);
            SmartPtr<ExpandedMultiVectorMatrix> m = sp->MakeNewExpandedMultiVectorMatrix();
            c.desc << fmt(" ExpMV%dx%d(P%d", n, k, IsValid(P) ? (int)small->Dim() : -1);
            for( int i = 0; i < n; ++i )
            {
               if( s.flip(0.25) )
               {
                  c.desc << " -";
                  continue;
               }
               SmartPtr<Vector> v = small->MakeNew();
               V q = fill(s, *v, val);
               for( size_t t = 0; t < q.size(); ++t )
                  for( int j = 0; j < k; ++j )
                     r.d(i, j) += q[t] * pd(j, (int)t);
               m->SetVector(i, ConstPtr(v));
               c.desc << " v";
               if( v->Dim() )
                  r.poison = [v](Src & s2) { static_cast<DenseVector&>(const_cast<Vector&>(*v)).Values()[s2.below(v->Dim())] = bad(s2); };
            }
            c.desc << ")";
            r.scale = dabs(r.d), r.amax = false;
            r.m = GetRawPtr(m);
            return r;
         }
         case 7:
         {
            if( o.amax || depth <= 0 )
               break;
            if( s.flip() )
               return sum_terms(c, R, C, depth, o, false);
            c.desc << " Scaled(";
            Mat b = gen(c, R, C, depth - 1, o);
            SmartPtr<Vector> rs, cs;
            V rv(n, 1.), cv(k, 1.);
            bool rr = s.flip(), cr = s.flip();
            if( s.flip(0.8) )
            {
               rs = R->MakeNew();
               rv = fill(s, *rs, nz);
            }
            if( s.flip(0.8) )
            {
               cs = C->MakeNew();
               cv = fill(s, *cs, nz);
            }
            c.desc << fmt(" r%d%d c%d%d )", IsValid(rs), rr, IsValid(cs), cr);
            SmartPtr<ScaledMatrixSpace> sp = new ScaledMatrixSpace(ConstPtr(rs), rr, b.m->OwnerSpace(), ConstPtr(cs), cr);
            SmartPtr<ScaledMatrix> m = sp->MakeNewScaledMatrix();
            if( s.flip() ) m->SetUnscaledMatrix(ConstPtr(b.m));
            else m->SetUnscaledMatrixNonConst(b.m);
            for( int i = 0; i < n; ++i )
               for( int j = 0; j < k; ++j )
               {
                  double f = (IsValid(rs) && rr ? 1 / rv[i] : rv[i]) * (IsValid(cs) && cr ? 1 / cv[j] : cv[j]);
                  r.d(i, j) = f * b.d(i, j);
                  r.scale(i, j) = std::fabs(f) * b.scale(i, j);
               }
            r.trip = b.trip, r.amax = false, r.poison = b.poison;
            r.m = GetRawPtr(m);
            return r;
         }
         default:
         {
            if( depth <= 0 || (rd && cd && s.flip(0.7)) )
               break;
            int p = std::max(1, ncomp(*R)), q = std::max(1, ncomp(*C));
            c.desc << fmt(" Comp%dx%d(", p, q);
            SmartPtr<CompoundMatrixSpace> sp = new CompoundMatrixSpace(p, q, n, k);
            for( int i = 0; i < p; ++i )
               sp->SetBlockRows(i, comp(*R, i)->Dim());
            for( int j = 0; j < q; ++j )
               sp->SetBlockCols(j, comp(*C, j)->Dim());
            std::vector<Mat> b(p * q);
            // the space of a block must be known before the matrix is made
            int ro = 0;
            for( int i = 0; i < p; ++i )
            {
               int co = 0;
               for( int j = 0; j < q; ++j )
               {
                  if( s.flip(0.7) )
                  {
                     Mat& x = b[i * q + j] = gen(c, comp(*R, i), comp(*C, j), depth - 1, o);
                     sp->SetCompSpace(i, j, *x.m->OwnerSpace());
                     for( int u = 0; u < x.d.r; ++u )
                        for( int w = 0; w < x.d.c; ++w )
                        {
                           r.d(ro + u, co + w) = x.d(u, w);
                           r.scale(ro + u, co + w) = x.scale(u, w);
                        }
                     r.amax = r.amax && x.amax, r.trip = r.trip && x.trip, r.exact_amax = r.exact_amax && x.exact_amax;
                     if( x.poison && (!r.poison || s.flip()) )
                        r.poison = x.poison;
                  }
                  else
                     c.desc << " -";
                  co += comp(*C, j)->Dim();
               }
               ro += comp(*R, i)->Dim();
            }
            c.desc << " )";
            SmartPtr<CompoundMatrix> m = sp->MakeNewCompoundMatrix();
            for( int i = 0; i < p; ++i )
               for( int j = 0; j < q; ++j )
                  if( IsValid(b[i * q + j].m) )
                  {
                     if( s.flip() ) m->SetComp(i, j, *b[i * q + j].m);
                     else m->SetCompNonConst(i, j, *b[i * q + j].m);
                  }
            r.m = GetRawPtr(m);
            return r;
         }
      }
      if( !(rd && cd) && depth <= 0 )
      {
         c.desc << fmt(" Zero%dx%d", n, k);
         r.m = (new ZeroMatrixSpace(n, k))->MakeNewZeroMatrix();
         return r;
      }
   }
}
inline Mat gen_sym(Ctx& c, VSp S, int depth, const Opt& o)
{
   Src& s = c.src;
   int n = S->Dim();
   bool dn = ncomp(*S) == 0;
   Mat r;
   r.row = r.col = S, r.d = D(n, n), r.scale = D(n, n), r.sym = true;
   for( ;; )
   {
      switch( s.below(8) )
      {
         case 0:
         {
            if( !dn || o.diag )
               break;
            std::vector<Index> I, J;
            pattern(c, n, n, true, I, J);
            c.desc << fmt(" SymT%d(", n);
            SmartPtr<SymTMatrixSpace> sp = new SymTMatrixSpace(n, (Index)I.size(), I.data(), J.data());
            SmartPtr<SymTMatrix> m = sp->MakeNewSymTMatrix();
            V v(I.size());
            std::set<std::pair<int, int> > seen;
            for( size_t e = 0; e < v.size(); ++e )
            {
               v[e] = val(s);
               r.d(I[e] - 1, J[e] - 1) += v[e];
               r.scale(I[e] - 1, J[e] - 1) += std::fabs(v[e]);
               if( I[e] != J[e] )
               {
                  r.d(J[e] - 1, I[e] - 1) += v[e];
                  r.scale(J[e] - 1, I[e] - 1) += std::fabs(v[e]);
               }
               r.exact_amax = r.exact_amax && seen.insert(std::make_pair(std::min(I[e], J[e]), std::max(I[e], J[e]))).second;
               c.desc << fmt(" %d,%d:%g", (int)I[e], (int)J[e], v[e]);
            }
            c.desc << ")";
            m->SetValues(v.data());
            int nnz = (int)v.size();
            if( nnz )
               r.poison = [m, nnz](Src & s2) { const_cast<SymTMatrix&>(*m).Values()[s2.below(nnz)] = bad(s2); };
            r.m = GetRawPtr(m);
            return r;
         }
         case 1:
         {
            if( !dn || o.trip || n == 0 )
               break;
            c.desc << " DenseSym" << n;
            SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(n);
            SmartPtr<DenseSymMatrix> m = sp->MakeNewDenseSymMatrix();
            double* v = m->Values();
            for( int j = 0; j < n; ++j )
               for( int i = 0; i < n; ++i )
                  if( i >= j )
                     r.d(i, j) = r.d(j, i) = v[i + j * n] = val(s);
                  else
                     v[i + j * n] = NAN;  // never looked at
            r.scale = dabs(r.d);
            r.trip = false;
            if( n )
               r.poison = [m, n](Src & s2) { int i = s2.below(n), j = s2.below(n); const_cast<DenseSymMatrix&>(*m).Values()[std::max(i, j) + n * std::min(i, j)] = bad(s2); };
            r.m = GetRawPtr(m);
            return r;
         }
         case 2:
         {
            c.desc << " Diag" << n;
            SmartPtr<DiagMatrixSpace> sp = new DiagMatrixSpace(n);
            SmartPtr<DiagMatrix> m = sp->MakeNewDiagMatrix();
            SmartPtr<Vector> v = S->MakeNew();
            V q = fill(s, *v, val);
            for( int i = 0; i < n; ++i )
               r.d(i, i) = q[i];
            r.scale = dabs(r.d);
            m->SetDiag(*v);
            r.m = GetRawPtr(m);
            if( n )
               r.poison = [v](Src & s2)
            {
               int pos = s2.below(v->Dim()), k = 0;
               leaves_nc(const_cast<Vector&>(*v), [&](DenseVector & x)
               {
                  if( pos >= k && pos < k + x.Dim() )
                     x.Values()[pos - k] = bad(s2);
                  k += x.Dim();
               });
            };
            return r;
         }
         case 3:
         {
            SmartPtr<IdentityMatrixSpace> sp = new IdentityMatrixSpace(n);
            SmartPtr<IdentityMatrix> m = sp->MakeNewIdentityMatrix();
            double f = s.flip(0.3) ? 1 : val(s);
            if( f != 1 || s.flip() )
               m->SetFactor(f);
            c.desc << fmt(" Id%d*%g", n, f);
            for( int i = 0; i < n; ++i )
               r.d(i, i) = f;
            r.scale = dabs(r.d);
            r.m = GetRawPtr(m);
            r.poison = [m](Src & s2) { const_cast<IdentityMatrix&>(*m).SetFactor(bad(s2)); };
            return r;
         }
         case 4:
            c.desc << " ZeroSym" << n;
            r.m = (new ZeroSymMatrixSpace(n))->MakeNewZeroSymMatrix();
            return r;
         case 5:
         {
            if( o.amax || depth <= 0 )
               break;
            if( s.flip() )
               return sum_terms(c, S, S, depth, o, true);
            c.desc << " SymScaled(";
            Mat b = gen_sym(c, S, depth - 1, o);
            SmartPtr<Vector> v = S->MakeNew();
            V q = fill(s, *v, nz);
            bool rec = s.flip();
            c.desc << fmt(" %d )", rec);
            SmartPtr<SymScaledMatrixSpace> sp = new SymScaledMatrixSpace(ConstPtr(v), rec, static_cast<const SymMatrix&>(*b.m).OwnerSymMatrixSpace());
            SmartPtr<SymScaledMatrix> m = sp->MakeNewSymScaledMatrix();
            SmartPtr<SymMatrix> bm = static_cast<SymMatrix*>(GetRawPtr(b.m));
            if( s.flip() ) m->SetUnscaledMatrix(ConstPtr(bm));
            else m->SetUnscaledMatrixNonConst(bm);
            for( int i = 0; i < n; ++i )
               for( int j = 0; j < n; ++j )
               {
                  double f = rec ? 1 / q[i] / q[j] : q[i] * q[j];
                  r.d(i, j) = f * b.d(i, j);
                  r.scale(i, j) = std::fabs(f) * b.scale(i, j);
               }
            r.trip = b.trip, r.amax = false, r.poison = b.poison;
            r.m = GetRawPtr(m);
            return r;
         }
         case 6:
         {
            if( o.amax || o.trip )
               break;
            // P (D + V V' - U U') P'   or   D + P (V V' - U U') P'
            SmartPtr<const Matrix> P;
            VSp L = S;
            D pd(n, n);
            if( dn && s.flip() )
            {
               int q = s.integer(0, n);
               std::vector<Index> p;
               for( int i = 0; i < n && (int)p.size() < q; ++i )
                  if( s.flip(0.5) || n - i <= q - (int)p.size() )
                     p.push_back(i);
               SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(n, q, p.data(), 0);
               P = sp->MakeNewExpansionMatrix();
               L = new DenseVectorSpace(q);
               pd = D(n, q);
               for( int j = 0; j < q; ++j )
                  pd(p[j], j) = 1;
            }
            else
               for( int i = 0; i < n; ++i )
                  pd(i, i) = 1;
            bool red = s.flip();
            int q = pd.c;
            c.desc << fmt(" LowRank%d(P%d red%d", n, IsValid(P) ? q : -1, red);
            SmartPtr<LowRankUpdateSymMatrixSpace> sp = new LowRankUpdateSymMatrixSpace(n, P, L, red);
            SmartPtr<LowRankUpdateSymMatrix> m = sp->MakeNewLowRankUpdateSymMatrix();
            SmartPtr<Vector> dv = (red ? L : S)->MakeNew();
            V dg = fill(s, *dv, val);
            m->SetDiag(*dv);
            D small(q, q), ss(q, q);
            for( int sign = 1; sign >= -1; sign -= 2 )
            {
               if( s.flip(0.3) )
                  continue;
               D x;
               c.desc << (sign > 0 ? " V" : " U");
               SmartPtr<MultiVectorMatrix> mv = gen_mv(c, L, s.integer(0, 3), x, &r.poison);
               if( sign > 0 ) m->SetV(*mv);
               else m->SetU(*mv);
               for( int i = 0; i < q; ++i )
                  for( int j = 0; j < q; ++j )
                     for( int e = 0; e < x.c; ++e )
                        small(i, j) += sign * x(i, e) * x(j, e), ss(i, j) += std::fabs(x(i, e) * x(j, e));
            }
            c.desc << " )";
            std::vector<int> pos(q);
            for( int j = 0; j < q; ++j )
               for( int i = 0; i < n; ++i )
                  if( pd(i, j) != 0 )
                     pos[j] = i;
            for( int i = 0; i < q; ++i )
               for( int j = 0; j < q; ++j )
                  r.d(pos[i], pos[j]) += small(i, j), r.scale(pos[i], pos[j]) += ss(i, j);
            for( size_t i = 0; i < dg.size(); ++i )
            {
               int p = red ? pos[i] : (int)i;
               r.d(p, p) += dg[i], r.scale(p, p) += std::fabs(dg[i]);
            }
            r.amax = r.trip = false;
            r.m = GetRawPtr(m);
            return r;
         }
         default:
         {
            if( depth <= 0 || dn || o.diag )  // works on compound vectors only
               break;
            int p = std::max(1, ncomp(*S));
            c.desc << fmt(" CompSym%d(", p);
            SmartPtr<CompoundSymMatrixSpace> sp = new CompoundSymMatrixSpace(p, n);
            for( int i = 0; i < p; ++i )
               sp->SetBlockDim(i, comp(*S, i)->Dim());
            std::vector<Mat> b(p * p);
            int ro = 0;
            for( int i = 0; i < p; ++i )
            {
               int co = 0;
               for( int j = 0; j <= i; ++j )
               {
                  if( s.flip(0.7) )
                  {
                     Mat& x = b[i * p + j] = i == j ? gen_sym(c, comp(*S, i), depth - 1, o) : gen(c, comp(*S, i), comp(*S, j), depth - 1, o);
                     sp->SetCompSpace(i, j, *x.m->OwnerSpace());
                     for( int u = 0; u < x.d.r; ++u )
                        for( int w = 0; w < x.d.c; ++w )
                        {
                           r.d(ro + u, co + w) = x.d(u, w);
                           r.scale(ro + u, co + w) = x.scale(u, w);
                           r.d(co + w, ro + u) = x.d(u, w);
                           r.scale(co + w, ro + u) = x.scale(u, w);
                        }
                     r.amax = r.amax && x.amax, r.trip = r.trip && x.trip, r.exact_amax = r.exact_amax && x.exact_amax;
                     if( x.poison && (!r.poison || s.flip()) )
                        r.poison = x.poison;
                  }
                  else
                     c.desc << " -";
                  co += comp(*S, j)->Dim();
               }
               ro += comp(*S, i)->Dim();
            }
            c.desc << " )";
            SmartPtr<CompoundSymMatrix> m = sp->MakeNewCompoundSymMatrix();
            for( int i = 0; i < p; ++i )
               for( int j = 0; j <= i; ++j )
                  if( IsValid(b[i * p + j].m) )
                  {
                     if( s.flip() ) m->SetComp(i, j, *b[i * p + j].m);
                     else m->SetCompNonConst(i, j, *b[i * p + j].m);
                  }
            r.m = GetRawPtr(m);
            return r;
         }
      }
   }
}
inline Mat any(Ctx& c, int depth, const Opt& o)
{
   VSp R = gen_space(c, std::min(depth, 2));
   if( c.src.flip(0.4) )
   {
      c.desc << " :";
      return gen_sym(c, R, depth, o);
   }
   VSp C = c.src.flip(0.2) ? R : gen_space(c, std::min(depth, 2));
   c.desc << " :";
   return gen(c, R, C, depth, o);
}
}
#endif
