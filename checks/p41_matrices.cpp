// P41: matrix operations equal their mathematical definition for every matrix type.
#include "pbt.hpp"
#include "matnest.hpp"
using namespace Ipopt;
using namespace mat;
static const double EPS = 4e-15;

static void same(Ctx& c, const Vector& got, const V& want, const V& tol, const char* key, const char* what)
{
   V g = flat(got);
   for( size_t i = 0; i < want.size(); ++i )
      PBT_CHECK(c, std::fabs(g[i] - want[i]) <= EPS * 50 * tol[i] + 1e-300, key, "%s: element %d is %.17g instead of %.17g", what, (int)i, g[i], want[i]);
}
static std::string top(const Mat& m)
{
   const char* n = typeid(*m.m).name();
   std::string s(n);
   size_t p = s.find("Ipopt");
   s = p == std::string::npos ? s : s.substr(p + 5);
   while( !s.empty() && isdigit(s[0]) )
      s.erase(0, 1);
   if( !s.empty() && s[s.size() - 1] == 'E' )
      s.erase(s.size() - 1);
   return s;
}
static void f_mult(Ctx& c)
{
   Src& s = c.src;
   Mat m = any(c, s.integer(0, 3), Opt());
   PBT_CHECK(c, m.m->NRows() == m.d.r && m.m->NCols() == m.d.c, "dim", "dimensions");
   int ops = s.integer(1, 4);
   std::string t = top(m);
   for( int k = 0; k < ops; ++k )
   {
      bool tr = s.flip();
      SmartPtr<Vector> x = (tr ? m.row : m.col)->MakeNew(), y = (tr ? m.col : m.row)->MakeNew();
      V xv = fill(s, *x, val);
      double al = s.flip() ? s.integer(-1, 1) : val(s), be = s.flip() ? s.integer(-1, 1) : val(s);
      V yv = fill(s, *y, be == 0 ? std::function<double(Src&)>([](Src&) { return NAN; }) : std::function<double(Src&)>(val));
      c.desc << fmt("\n %s alpha %g beta %g", tr ? "trans" : "mult", al, be);
      V want(yv.size()), tol(yv.size());
      for( size_t i = 0; i < want.size(); ++i )
      {
         want[i] = be == 0 ? 0 : be * yv[i];
         tol[i] = std::fabs(want[i]);
         for( size_t j = 0; j < xv.size(); ++j )
         {
            double a = tr ? m.d((int)j, (int)i) : m.d((int)i, (int)j), sc = tr ? m.scale((int)j, (int)i) : m.scale((int)i, (int)j);
            want[i] += al * a * xv[j];
            tol[i] += std::fabs(al * xv[j]) * sc;
         }
      }
      // low-rank parts mix all entries
      double mx = 0;
      for( double q : tol ) mx = std::max(mx, q);
      for( double& q : tol ) q = std::max(q, 1e-2 * mx);
      if( tr ) m.m->TransMultVector(al, *x, be, *y);
      else m.m->MultVector(al, *x, be, *y);
      same(c, *y, want, tol, ("mult-" + t).c_str(), tr ? "transposed product" : "product");
      PBT_CHECK(c, flat(*x) == xv, "argument", "the argument was changed");
   }
   c.nontrivial = m.d.r >= 1 && m.d.c >= 1;
   c.label("type " + t);
}
static void f_amax(Ctx& c)
{
   Src& s = c.src;
   Opt o;
   o.amax = true;
   Mat m = any(c, s.integer(0, 3), o);
   if( !m.amax || !m.exact_amax )
   {
      // the norms are taken over the single entries when entries are repeated
      c.nontrivial = false;
      return;
   }
   for( int k = 0; k < 2; ++k )
   {
      bool col = k, init = s.flip();
      SmartPtr<Vector> y = (col ? m.col : m.row)->MakeNew();
      V yv = fill(s, *y, [](Src & q) { return std::fabs(val(q)); });
      c.desc << fmt("\n %s init %d", col ? "columns" : "rows", init);
      V want(yv.size());
      for( size_t i = 0; i < want.size(); ++i )
      {
         want[i] = init ? 0 : yv[i];
         for( int j = 0; j < (col ? m.d.r : m.d.c); ++j )
            want[i] = std::max(want[i], std::fabs(col ? m.d(j, (int)i) : m.d((int)i, j)));
      }
      if( col ) m.m->ComputeColAMax(*y, init);
      else m.m->ComputeRowAMax(*y, init);
      same(c, *y, want, V(want.size(), 0.), ("amax-" + top(m)).c_str(), col ? "column norms" : "row norms");
   }
   c.nontrivial = m.d.r >= 1 && m.d.c >= 1;
}
static void f_special(Ctx& c)
{
   Src& s = c.src;
   Mat m = any(c, s.integer(0, 3), Opt());
   int n = m.d.r, k = m.d.c;
   auto pos = [](Src & q) { return nz(q); };
   double al = s.flip() ? s.integer(-1, 1) : val(s);
   if( s.flip() )
   {
      SmartPtr<Vector> S = m.col->MakeNew(), Z = m.col->MakeNew(), X = m.row->MakeNew();
      V sv = fill(s, *S, pos), zv = fill(s, *Z, val), xv = fill(s, *X, val);
      c.desc << fmt("\n X += %g M S^-1 Z", al);
      V want = xv, tol(n);
      double mx = 0;
      for( int i = 0; i < n; ++i )
      {
         tol[i] = std::fabs(xv[i]);
         for( int j = 0; j < k; ++j )
            want[i] += al * m.d(i, j) * zv[j] / sv[j], tol[i] += std::fabs(al * zv[j] / sv[j]) * m.scale(i, j);
         mx = std::max(mx, tol[i]);
      }
      for( double& q : tol ) q = std::max(q, 1e-2 * mx);
      m.m->AddMSinvZ(al, *S, *Z, *X);
      same(c, *X, want, tol, ("AddMSinvZ-" + top(m)).c_str(), "X + alpha M S^-1 Z");
   }
   else
   {
      SmartPtr<Vector> S = m.col->MakeNew(), R = m.col->MakeNew(), Z = m.col->MakeNew(), Dv = m.row->MakeNew(), X = m.col->MakeNew();
      V sv = fill(s, *S, pos), rv = fill(s, *R, val), zv = fill(s, *Z, val), dv = fill(s, *Dv, val);
      fill(s, *X, [](Src&) { return NAN; });
      c.desc << fmt("\n X = S^-1 (R + %g Z M' D)", al);
      V want(k), tol(k);
      double mx = 0;
      for( int j = 0; j < k; ++j )
      {
         double p = 0, q = 0;
         for( int i = 0; i < n; ++i )
            p += m.d(i, j) * dv[i], q += m.scale(i, j) * std::fabs(dv[i]);
         mx = std::max(mx, q);
         tol[j] = q;
         want[j] = (rv[j] + al * zv[j] * p) / sv[j];
      }
      for( int j = 0; j < k; ++j )
         tol[j] = (std::fabs(rv[j]) + std::fabs(al * zv[j]) * std::max(tol[j], 1e-2 * mx)) / std::fabs(sv[j]);
      m.m->SinvBlrmZMTdBr(al, *S, *R, *Z, *Dv, *X);
      same(c, *X, want, tol, ("SinvBlrmZMTdBr-" + top(m)).c_str(), "S^-1 (R + alpha Z M' D)");
   }
   c.nontrivial = n >= 1 && k >= 1;
}
static void f_valid(Ctx& c)
{
   Src& s = c.src;
   Mat m = any(c, s.integer(0, 3), Opt());
   bool bad = s.flip() && m.poison;
   if( bad )
   {
      if( s.flip() && m.d.a.size() < 1 )
         bad = false;
      else
         m.poison(s);
   }
   // a factor zero in front of the matrix or an empty matrix hides nothing: the entries themselves count
   c.desc << "\n poisoned " << bad;
   PBT_CHECK(c, m.m->HasValidNumbers() == !bad, ("valid-" + top(m)).c_str(), "HasValidNumbers is %d", bad);
   PBT_CHECK(c, m.m->HasValidNumbers() == !bad, "valid-again", "asked again HasValidNumbers is %d", bad);
   c.nontrivial = bad;
}
typedef SmartPtr<DenseGenMatrix> DG;
static DG dg(int n, int k, D& d, Src& s)
{
   SmartPtr<DenseGenMatrixSpace> sp = new DenseGenMatrixSpace(n, k);
   DG m = sp->MakeNewDenseGenMatrix();
   d = D(n, k);
   double* v = m->Values();
   for( int i = 0; i < n * k; ++i )
      v[i] = d.a[i] = val(s);
   return m;
}
static SmartPtr<DenseSymMatrix> ds(int n, D& d, Src& s)
{
   SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(n);
   SmartPtr<DenseSymMatrix> m = sp->MakeNewDenseSymMatrix();
   d = D(n, n);
   double* v = m->Values();
   for( int j = 0; j < n; ++j )
      for( int i = 0; i < n; ++i )
         if( i >= j )
            v[i + j * n] = d(i, j) = d(j, i) = val(s);
         else
            v[i + j * n] = NAN;
   return m;
}
static double opel(const D& a, bool t, int i, int j)
{
   return t ? a(j, i) : a(i, j);
}
static void cmp(Ctx& c, const double* got, const D& want, const D& tol, bool lower, const char* key)
{
   for( int j = 0; j < want.c; ++j )
      for( int i = lower ? j : 0; i < want.r; ++i )
         PBT_CHECK(c, std::fabs(got[i + (size_t)j * want.r] - want(i, j)) <= EPS * 10 * tol(i, j) + 1e-300, key, "element %d,%d is %.17g instead of %.17g", i, j, got[i + (size_t)j * want.r], want(i, j));
}
static void f_dense(Ctx& c)
{
   Src& s = c.src;
   int n = s.integer(1, 6), k = s.integer(1, 6), l = s.integer(1, 6);
   double al = s.flip() ? s.integer(-1, 1) : val(s), be = s.flip() ? s.integer(-1, 1) : val(s);
   int what = s.below(12);
   c.desc << fmt("operation %d, n %d k %d l %d alpha %g beta %g\n", what, n, k, l, al, be);
   auto nanify = [&](DG m, D & d) { if( be == 0 ) { double* v = m->Values(); for( size_t i = 0; i < d.a.size(); ++i ) v[i] = NAN, d.a[i] = 0; } };
   D A, B, C, T;
   switch( what )
   {
      case 0:
      {
         bool ta = s.flip(), tb = s.flip();
         DG a = ta ? dg(l, n, A, s) : dg(n, l, A, s), b = tb ? dg(k, l, B, s) : dg(l, k, B, s), m = dg(n, k, C, s);
         nanify(m, C);
         T = dabs(C);
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
            {
               double w = be * C(i, j), t = std::fabs(w);
               for( int e = 0; e < l; ++e )
                  w += al * opel(A, ta, i, e) * opel(B, tb, e, j), t += std::fabs(al * opel(A, ta, i, e) * opel(B, tb, e, j));
               C(i, j) = w, T(i, j) = t;
            }
         // BLAS does nothing sensible to an empty inner dimension but must still scale
         m->AddMatrixProduct(al, *a, ta, *b, tb, be);
         cmp(c, const_cast<const DenseGenMatrix&>(*m).Values(), C, T, false, "AddMatrixProduct");
         break;
      }
      case 1:
      case 2:
      {
         // M = alpha V1' V2 + beta M for multi-vector matrices
         VSp R = gen_space(c, 1);
         D v1, v2;
         bool sy = what == 2;
         SmartPtr<MultiVectorMatrix> V1 = gen_mv(c, R, n, v1), V2 = sy ? V1 : gen_mv(c, R, k, v2);
         if( sy ) v2 = v1, k = n;
         D M;
         T = D(n, k);
         DG m;
         SmartPtr<DenseSymMatrix> q;
         if( sy ) q = ds(n, M, s);
         else { m = dg(n, k, M, s); nanify(m, M); }
         if( sy && be == 0 )
         {
            double* v = q->Values();
            for( int i = 0; i < n * n; ++i ) v[i] = NAN, M.a[i] = 0;
         }
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
            {
               double w = be * M(i, j), t = std::fabs(w);
               for( int e = 0; e < v1.r; ++e )
                  w += al * v1(e, i) * v2(e, j), t += std::fabs(al * v1(e, i) * v2(e, j));
               M(i, j) = w, T(i, j) = t;
            }
         if( sy ) q->HighRankUpdateTranspose(al, *V1, *V2, be);
         else m->HighRankUpdateTranspose(al, *V1, *V2, be);
         cmp(c, sy ? const_cast<const DenseSymMatrix&>(*q).Values() : const_cast<const DenseGenMatrix&>(*m).Values(), M, T, sy, sy ? "sym-HighRankUpdateTranspose" : "HighRankUpdateTranspose");
         break;
      }
      case 3:
      {
         bool tr = s.flip();
         D M, v;
         SmartPtr<DenseSymMatrix> q = ds(n, M, s);
         DG x = tr ? dg(l, n, v, s) : dg(n, l, v, s);
         if( be == 0 )
         {
            double* p = q->Values();
            for( int i = 0; i < n * n; ++i ) p[i] = NAN, M.a[i] = 0;
         }
         T = D(n, n);
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
            {
               double w = be * M(i, j), t = std::fabs(w);
               for( int e = 0; e < l; ++e )
                  w += al * opel(v, tr, i, e) * opel(v, tr, j, e), t += std::fabs(al * opel(v, tr, i, e) * opel(v, tr, j, e));
               M(i, j) = w, T(i, j) = t;
            }
         q->HighRankUpdate(tr, al, *x, be);
         cmp(c, const_cast<const DenseSymMatrix&>(*q).Values(), M, T, true, "HighRankUpdate");
         break;
      }
      case 4:
      {
         D M, N;
         SmartPtr<DenseSymMatrix> q = ds(n, M, s), r = ds(n, N, s);
         if( be == 0 )
         {
            double* p = q->Values();
            for( int i = 0; i < n * n; ++i ) p[i] = NAN, M.a[i] = 0;
         }
         T = D(n, n);
         for( size_t i = 0; i < M.a.size(); ++i )
            T.a[i] = std::fabs(be * M.a[i]) + std::fabs(al * N.a[i]), M.a[i] = be * M.a[i] + al * N.a[i];
         q->AddMatrix(al, *r, be);
         cmp(c, const_cast<const DenseSymMatrix&>(*q).Values(), M, T, true, "AddMatrix");
         if( n )
         {
            q->FillIdentity(al);
            D I(n, n);
            for( int i = 0; i < n; ++i ) I(i, i) = al;
            cmp(c, const_cast<const DenseSymMatrix&>(*q).Values(), I, D(n, n), true, "FillIdentity-sym");
         }
         break;
      }
      case 5:
      {
         D M, L;
         SmartPtr<DenseSymMatrix> q = ds(n, M, s);
         DG x = dg(n, n, L, s);
         double* p = x->Values();
         for( int j = 0; j < n; ++j )
            for( int i = 0; i <= j; ++i )
               L(i, j) = p[i + j * n] = 0;
         SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(n);
         SmartPtr<DenseVector> d = sp->MakeNewDenseVector();
         V dv = fill(s, *d, val);
         T = D(n, n);
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
            {
               double w = M(i, j) + L(i, j) + L(j, i) + (i == j ? dv[i] : 0);
               T(i, j) = std::fabs(M(i, j)) + std::fabs(L(i, j)) + std::fabs(L(j, i)) + (i == j ? std::fabs(dv[i]) : 0);
               M(i, j) = w;
            }
         q->SpecialAddForLMSR1(*d, *x);
         cmp(c, const_cast<const DenseSymMatrix&>(*q).Values(), M, T, true, "SpecialAddForLMSR1");
         break;
      }
      case 6:
      {
         DG m = dg(n, k, A, s);
         SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(k);
         SmartPtr<DenseVector> d = sp->MakeNewDenseVector();
         V dv = fill(s, *d, val);
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
               A(i, j) *= dv[j];
         m->ScaleColumns(*d);
         cmp(c, const_cast<const DenseGenMatrix&>(*m).Values(), A, dabs(A), false, "ScaleColumns");
         DG o = m->MakeNewDenseGenMatrix();
         o->Copy(*m);
         cmp(c, const_cast<const DenseGenMatrix&>(*o).Values(), A, dabs(A), false, "Copy");
         if( n == k )
         {
            o->FillIdentity(al);
            D I(n, n);
            for( int i = 0; i < n; ++i ) I(i, i) = al;
            cmp(c, const_cast<const DenseGenMatrix&>(*o).Values(), I, D(n, n), false, "FillIdentity");
         }
         break;
      }
      case 7:
      case 8:
      {
         // Cholesky factors of positive definite matrices, refusal of clearly indefinite ones
         auto sv = [](Src & q) { return q.nice(-3, 3); };
         if( n == 0 ) break;
         D G(n, n), M(n, n);
         for( double& v : G.a ) v = sv(s);
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
            {
               for( int e = 0; e < n; ++e )
                  M(i, j) += G(i, e) * G(j, e);
               if( i == j ) M(i, j) += 1;
            }
         bool indef = what == 8 && s.flip();
         if( indef )
            M(n - 1, n - 1) = -std::fabs(M(n - 1, n - 1));
         double nrm = 0;
         for( double v : M.a ) nrm = std::max(nrm, std::fabs(v));
         SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(n);
         SmartPtr<DenseSymMatrix> q = sp->MakeNewDenseSymMatrix();
         double* p = q->Values();
         for( int j = 0; j < n; ++j )
            for( int i = 0; i < n; ++i )
               p[i + j * n] = i >= j ? M(i, j) : NAN;
         SmartPtr<DenseGenMatrixSpace> gs = new DenseGenMatrixSpace(n, n);
         DG m = gs->MakeNewDenseGenMatrix();
         bool ok = m->ComputeCholeskyFactor(*q);
         PBT_CHECK(c, ok == !indef, "cholesky-return", "returned %d", ok);
         if( indef ) break;
         const double* L = const_cast<const DenseGenMatrix&>(*m).Values();
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
            {
               double w = 0;
               for( int e = 0; e < n; ++e )
                  w += L[i + e * n] * L[j + e * n];
               PBT_CHECK(c, std::fabs(w - M(i, j)) <= 1e-13 * nrm * n, "cholesky", "L L' differs at %d,%d: %g instead of %g", i, j, w, M(i, j));
               if( j > i )
                  PBT_CHECK(c, L[i + j * n] == 0, "cholesky-upper", "the factor has an entry above the diagonal");
            }
         DG rhs = dg(n, k, B, s), sol = rhs->MakeNewDenseGenMatrix();
         double bn = 0;
         for( double v : B.a ) bn = std::max(bn, std::fabs(v));
         sol->Copy(*rhs);
         bool tr = s.flip();
         m->CholeskyBackSolveMatrix(tr, al, *sol);
         const double* x = const_cast<const DenseGenMatrix&>(*sol).Values();
         double xn = 0;
         for( int i = 0; i < n * k; ++i ) xn = std::max(xn, std::fabs(x[i]));
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
            {
               double w = 0;
               for( int e = 0; e < n; ++e )
                  w += (tr ? L[e + i * n] : L[i + e * n]) * x[e + j * n];
               PBT_CHECK(c, std::fabs(w - al * B(i, j)) <= 1e-12 * (std::sqrt(nrm) * xn * n + std::fabs(al) * bn), "backsolve", "residual %g at %d,%d (trans %d)", w - al * B(i, j), i, j, tr);
            }
         sol->Copy(*rhs);
         m->CholeskySolveMatrix(*sol);
         x = const_cast<const DenseGenMatrix&>(*sol).Values();
         xn = 0;
         for( int i = 0; i < n * k; ++i ) xn = std::max(xn, std::fabs(x[i]));
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
            {
               double w = 0;
               for( int e = 0; e < n; ++e )
                  w += M(i, e) * x[e + j * n];
               PBT_CHECK(c, std::fabs(w - B(i, j)) <= 1e-12 * (nrm * xn * n + bn), "cholesky-solve", "residual %g", w - B(i, j));
            }
         if( k > 0 )
         {
            SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(n);
            SmartPtr<DenseVector> b = vs->MakeNewDenseVector();
            b->SetValues(B.a.data());
            m->CholeskySolveVector(*b);
            const double* y = const_cast<const DenseVector&>(*b).Values();
            for( int i = 0; i < n; ++i )
               PBT_CHECK(c, std::fabs(y[i] - x[i]) <= 1e-12 * std::fabs(xn) * nrm, "cholesky-vector", "vector and matrix solve differ: %g %g", y[i], x[i]);
         }
         break;
      }
      case 9:
      {
         // LU
         if( n == 0 ) break;
         SmartPtr<DenseGenMatrixSpace> gs = new DenseGenMatrixSpace(n, n);
         DG m = gs->MakeNewDenseGenMatrix();
         A = D(n, n);
         for( double& v : A.a ) v = s.nice(-3, 3);
         bool singular = s.flip(0.3);
         if( singular )
         {
            int z = s.below(n);
            for( int j = 0; j < n; ++j )
               A(j, z) = 0;
         }
         else
            for( int i = 0; i < n; ++i )
               A(i, (i + 1) % n) += 10 * n;
         double nrm = 0;
         for( double v : A.a ) nrm = std::max(nrm, std::fabs(v));
         double* p = m->Values();
         for( int i = 0; i < n * n; ++i ) p[i] = A.a[i];
         bool ok = m->ComputeLUFactorInPlace();
         PBT_CHECK(c, ok == !singular, "lu-return", "returned %d", ok);
         if( singular ) break;
         DG rhs = dg(n, k, B, s);
         double bn = 0, xn = 0;
         for( double v : B.a ) bn = std::max(bn, std::fabs(v));
         m->LUSolveMatrix(*rhs);
         const double* x = const_cast<const DenseGenMatrix&>(*rhs).Values();
         for( int i = 0; i < n * k; ++i ) xn = std::max(xn, std::fabs(x[i]));
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < k; ++j )
            {
               double w = 0;
               for( int e = 0; e < n; ++e )
                  w += A(i, e) * x[e + j * n];
               PBT_CHECK(c, std::fabs(w - B(i, j)) <= 1e-12 * (nrm * xn * n + bn), "lu-solve", "residual %g", w - B(i, j));
            }
         if( k > 0 )
         {
            SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(n);
            SmartPtr<DenseVector> b = vs->MakeNewDenseVector();
            b->SetValues(B.a.data());
            m->LUSolveVector(*b);
            const double* y = const_cast<const DenseVector&>(*b).Values();
            for( int i = 0; i < n; ++i )
               PBT_CHECK(c, std::fabs(y[i] - x[i]) <= 1e-12 * xn * n, "lu-vector", "vector and matrix solve differ: %g %g", y[i], x[i]);
         }
         break;
      }
      case 10:
      {
         if( n == 0 ) break;
         D M;
         SmartPtr<DenseSymMatrix> q = ds(n, M, s);
         double nrm = 0;
         for( double v : M.a ) nrm = std::max(nrm, std::fabs(v));
         SmartPtr<DenseGenMatrixSpace> gs = new DenseGenMatrixSpace(n, n);
         DG m = gs->MakeNewDenseGenMatrix();
         SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(n);
         SmartPtr<DenseVector> ev = vs->MakeNewDenseVector();
         bool ok = m->ComputeEigenVectors(*q, *ev);
         PBT_CHECK(c, ok, "eigen-return", "returned false");
         const double* Q = const_cast<const DenseGenMatrix&>(*m).Values();
         const double* e = const_cast<const DenseVector&>(*ev).Values();
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
            {
               double w = 0, o = 0;
               for( int t = 0; t < n; ++t )
                  w += M(i, t) * Q[t + j * n], o += Q[t + i * n] * Q[t + j * n];
               PBT_CHECK(c, std::fabs(w - e[j] * Q[i + j * n]) <= 1e-12 * nrm * n + 1e-300, "eigen", "M q - e q is %g", w - e[j] * Q[i + j * n]);
               PBT_CHECK(c, std::fabs(o - (i == j)) <= 1e-12 * n, "eigen-orth", "the eigenvectors are not orthonormal");
            }
         break;
      }
      default:
      {
         // multi-vector matrices
         VSp R = gen_space(c, 1);
         D v1, v2;
         SmartPtr<MultiVectorMatrix> V1 = gen_mv(c, R, n, v1), V2 = gen_mv(c, R, k, v2);
         int r = v1.r;
         SmartPtr<MultiVectorMatrix> N = V1->MakeNewMultiVectorMatrix();
         N->FillWithNewVectors();
         for( int j = 0; j < n; ++j )
            N->GetVectorNonConst(j)->Set(1.);
         double c2 = be;
         D W(r, n), TT(r, n);
         for( int i = 0; i < r; ++i )
            for( int j = 0; j < n; ++j )
               W(i, j) = al * v1(i, j) + c2, TT(i, j) = std::fabs(al * v1(i, j)) + std::fabs(c2);
         N->AddOneMultiVectorMatrix(al, *V1, c2);
         auto look = [&](const char* key)
         {
            for( int j = 0; j < n; ++j )
            {
               V g = flat(*N->GetVector(j));
               for( int i = 0; i < r; ++i )
                  PBT_CHECK(c, std::fabs(g[i] - W(i, j)) <= EPS * 20 * TT(i, j) + 1e-300, key, "element %d,%d is %g instead of %g", i, j, g[i], W(i, j));
            }
         };
         look("AddOneMultiVectorMatrix");
         SmartPtr<Vector> rs = R->MakeNew();
         V rv = fill(s, *rs, val);
         N->ScaleRows(*rs);
         for( int i = 0; i < r; ++i )
            for( int j = 0; j < n; ++j )
               W(i, j) *= rv[i], TT(i, j) *= std::fabs(rv[i]);
         look("mv-ScaleRows");
         SmartPtr<DenseVectorSpace> cs = new DenseVectorSpace(n);
         SmartPtr<DenseVector> cv = cs->MakeNewDenseVector();
         V cvv = fill(s, *cv, val);
         N->ScaleColumns(*cv);
         for( int i = 0; i < r; ++i )
            for( int j = 0; j < n; ++j )
               W(i, j) *= cvv[j], TT(i, j) *= std::fabs(cvv[j]);
         look("mv-ScaleColumns");
         DG x = dg(k, n, B, s);
         double b2 = s.flip() ? s.integer(-1, 1) : val(s);
         N->AddRightMultMatrix(al, *V2, *x, b2);
         for( int i = 0; i < r; ++i )
            for( int j = 0; j < n; ++j )
            {
               W(i, j) *= b2, TT(i, j) *= std::fabs(b2);
               for( int e = 0; e < k; ++e )
                  W(i, j) += al * v2(i, e) * B(e, j), TT(i, j) += std::fabs(al * v2(i, e) * B(e, j));
            }
         look("AddRightMultMatrix");
         SmartPtr<Vector> X = R->MakeNew(), Y = R->MakeNew();
         V xv = fill(s, *X, val), yv = fill(s, *Y, be == 0 ? std::function<double(Src&)>([](Src&) { return NAN; }) : std::function<double(Src&)>(val));
         V want(r), tol(r);
         for( int i = 0; i < r; ++i )
            want[i] = be == 0 ? 0 : be * yv[i], tol[i] = std::fabs(want[i]);
         for( int e = 0; e < k; ++e )
         {
            double d = 0, t = 0;
            for( int i = 0; i < r; ++i )
               d += v2(i, e) * xv[i], t += std::fabs(v2(i, e) * xv[i]);
            for( int i = 0; i < r; ++i )
               want[i] += al * d * v2(i, e), tol[i] += std::fabs(al * v2(i, e)) * t;
         }
         V2->LRMultVector(al, *X, be, *Y);
         same(c, *Y, want, tol, "LRMultVector", "y");
         break;
      }
   }
   c.nontrivial = n >= 1;
   c.label(fmt("operation %d", what));
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P41", "both dimensions at least one (for finiteness: an entry that is not finite)",
      {{"mult", f_mult, 1000000, 30000000}, {"amax", f_amax, 500000, 15000000}, {"special", f_special, 600000, 18000000}, {"valid", f_valid, 300000, 9000000}, {"dense", f_dense, 600000, 18000000}}
   };
   return pbt::run_main(argc, argv, k);
}
