// P19: limited-memory Hessians satisfy the secant recursion of the observed history.
#include "anycase.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpDenseVector.hpp"
#include <algorithm>
#include <set>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;
typedef long double LD;
typedef std::vector<LD> LV;
typedef std::vector<LV> LM;

static Vec dv(const Vector& v)
{
   const DenseVector& d = dynamic_cast<const DenseVector&>(v);
   return d.Dim() ? Vec(d.ExpandedValues(), d.ExpandedValues() + d.Dim()) : Vec();
}
static void unit(Vector& v, int k)
{
   v.Set(0.);
   dynamic_cast<DenseVector&>(v).Values()[k] = 1.;
}
struct Pair
{
   Vec s, y, ye;   // step, gradient difference, its rounding error
};
struct St
{
   std::vector<Pair> P;   // oldest first
   double sigma = 1, serr = 0;   // serr: relative rounding error of sigma
};
static LD dot(const LV& a, const LV& b)
{
   LD r = 0;
   for( size_t i = 0; i < a.size(); ++i )
      r += a[i] * b[i];
   return r;
}
static LV mul(const LM& A, const LV& x)
{
   LV r(A.size(), 0);
   for( size_t i = 0; i < A.size(); ++i )
      r[i] = dot(A[i], x);
   return r;
}
/** eigenvalues of a symmetric matrix (Jacobi rotations) */
static LV eig(LM A)
{
   int n = A.size();
   for( int sweep = 0; sweep < 60; ++sweep )
   {
      LD off = 0, all = 0;
      for( int i = 0; i < n; ++i )
         for( int j = 0; j < n; ++j )
            (i == j ? all : off) += A[i][j] * A[i][j];
      if( off <= 1e-38L * all )
         break;
      for( int p = 0; p < n; ++p )
         for( int q = p + 1; q < n; ++q )
            if( A[p][q] != 0 )
            {
               LD th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), cs = 1 / sqrtl(t * t + 1), sn = t * cs;
               for( int k = 0; k < n; ++k )
               {
                  LD a = A[k][p], b = A[k][q];
                  A[k][p] = cs * a - sn * b;
                  A[k][q] = sn * a + cs * b;
               }
               for( int k = 0; k < n; ++k )
               {
                  LD a = A[p][k], b = A[q][k];
                  A[p][k] = cs * a - sn * b;
                  A[q][k] = sn * a + cs * b;
               }
            }
   }
   LV e;
   for( int i = 0; i < n; ++i )
      e.push_back(A[i][i]);
   std::sort(e.begin(), e.end());
   return e;
}
static bool solve(LM A, LM B, LM& X)    // A X = B
{
   int n = A.size(), m = B.empty() ? 0 : B[0].size();
   for( int k = 0; k < n; ++k )
   {
      int p = k;
      for( int i = k; i < n; ++i )
         if( fabsl(A[i][k]) > fabsl(A[p][k]) )
            p = i;
      if( A[p][k] == 0 )
         return false;
      std::swap(A[p], A[k]);
      std::swap(B[p], B[k]);
      for( int i = k + 1; i < n; ++i )
      {
         LD f = A[i][k] / A[k][k];
         for( int j = k; j < n; ++j )
            A[i][j] -= f * A[k][j];
         for( int j = 0; j < m; ++j )
            B[i][j] -= f * B[k][j];
      }
   }
   X.assign(n, LV(m, 0));
   for( int k = n - 1; k >= 0; --k )
      for( int j = 0; j < m; ++j )
      {
         LD r = B[k][j];
         for( int i = k + 1; i < n; ++i )
            r -= A[k][i] * X[i][j];
         X[k][j] = r / A[k][k];
      }
   return true;
}
static LM srz(const std::vector<LV>& S, const std::vector<LV>& Y, LD sigma)
{
   int k = S.size();
   LM Z(k, LV(k, 0));
   for( int i = 0; i < k; ++i )
      for( int j = 0; j <= i; ++j )
         Z[i][j] = Z[j][i] = dot(S[i], Y[j]) - sigma * dot(S[i], S[j]);
   return Z;
}
/** matrix belonging to a state; pert: relative perturbation of the data */
static bool build(const St& st, int n, bool sr1, double pert, unsigned seed, LM& B)
{
   std::vector<LV> S, Y;
   unsigned r = seed * 2654435761u + 12345;
   auto rnd = [&]
   {
      r = r * 1664525u + 1013904223u;
      return pert * ((double)(r >> 8) / (1 << 23) - 1.);
   };
   for( auto& p : st.P )
   {
      LV a, b;
      for( int i = 0; i < n; ++i )
      {
         a.push_back(p.s[i] * (1 + (LD)rnd()));
         b.push_back(p.y[i] * (1 + (LD)rnd()) + (pert ? (LD)(p.ye[i] * rnd() / pert) : 0));
      }
      S.push_back(a);
      Y.push_back(b);
   }
   LD sigma = st.sigma * (pert ? 1 + (LD)(st.serr * rnd() / pert) : 1);
   B.assign(n, LV(n, 0));
   for( int i = 0; i < n; ++i )
      B[i][i] = sigma;
   int k = S.size();
   if( !sr1 )
   {
      for( int q = 0; q < k; ++q )
      {
         LV Bs = mul(B, S[q]);
         LD sBs = dot(S[q], Bs), sy = dot(S[q], Y[q]);
         if( !(sBs > 0) || !(sy > 0) )
            return false;
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j )
               B[i][j] += Y[q][i] * Y[q][j] / sy - Bs[i] * Bs[j] / sBs;
      }
      return true;
   }
   if( k == 0 )
      return true;
   LM Z = srz(S, Y, sigma), W(k, LV(n, 0)), X;
   for( int q = 0; q < k; ++q )
      for( int i = 0; i < n; ++i )
         W[q][i] = Y[q][i] - sigma * S[q][i];
   if( !solve(Z, W, X) )
      return false;
   for( int i = 0; i < n; ++i )
      for( int j = 0; j < n; ++j )
         for( int q = 0; q < k; ++q )
            B[i][j] += W[q][i] * X[q][j];
   return true;
}

/** condition number of the small matrix of the compact representation, times the size of what it multiplies */
static double compact_cond(const St& st, int n, bool sr1, double mx, double* cond = 0)
{
   std::vector<LV> S, Y;
   for( auto& p : st.P )
   {
      S.push_back(LV(p.s.begin(), p.s.end()));
      Y.push_back(LV(p.y.begin(), p.y.end()));
   }
   int k = S.size();
   if( k == 0 )
      return 0;
   // steps of too different sizes cannot be handled in double precision
   LD smin = INFINITY, smax = 0, ymax = 0;
   for( int i = 0; i < k; ++i )
   {
      smin = std::min(smin, sqrtl(dot(S[i], S[i])));
      smax = std::max(smax, sqrtl(dot(S[i], S[i])));
      ymax = std::max(ymax, sqrtl(dot(Y[i], Y[i])));
   }
   if( smax > 1e6L * smin || smin < 1e-9L || ymax > 1e8L || st.sigma < 1e-7 || st.sigma > 1e8 || mx < 1e-7 )
   {
      if( cond )
         *cond = INFINITY;
      return INFINITY;
   }
   LM M;
   LD big = std::max((LD)mx, (LD)st.sigma);
   if( sr1 )
   {
      M = srz(S, Y, st.sigma);
   }
   else
   {
      M.assign(k, LV(k, 0));
      for( int i = 0; i < k; ++i )
      {
         LD d = dot(S[i], Y[i]);
         for( int a = 0; a < n; ++a )
            big = std::max(big, Y[i][a] * Y[i][a] / d);
         for( int j = 0; j < k; ++j )
         {
            M[i][j] = st.sigma * dot(S[i], S[j]);
            for( int l = 0; l < std::min(i, j); ++l )
               M[i][j] += dot(S[i], Y[l]) * dot(S[j], Y[l]) / dot(S[l], Y[l]);
         }
      }
      for( int i = 0; i < k; ++i )
         for( int j = 0; j < k; ++j )
            if( i != j )
               M[i][j] /= sqrtl(M[i][i] * M[j][j]);
      for( int i = 0; i < k; ++i )
         M[i][i] = 1;
   }
   LD lo = INFINITY, hi = 0;
   for( LD v : eig(M) )
   {
      lo = std::min(lo, fabsl(v));
      hi = std::max(hi, fabsl(v));
   }
   if( cond )
      *cond = lo > 0 ? (double)(hi / lo) : INFINITY;
   return lo > 0 ? (double)(big * hi / lo) : INFINITY;
}
static void lbfgs(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_STOP | AF_INFEAS | AF_USERSCALE | AF_FIXEDTREAT | AF_LIMITS | AF_WARM, s.flip(0.3) ? 0.06 : 0.);
   for( size_t k = a.o.v.size(); k-- > 0; )
      if( a.o.v[k].name.compare(0, 14, "limited_memory") == 0 || a.o.v[k].name.compare(0, 7, "hessian") == 0 || a.o.v[k].name == "num_linear_variables" )
         a.o.v.erase(a.o.v.begin() + k);
   a.o.S("hessian_approximation", "limited-memory");
   bool sr1 = s.flip(0.35);
   a.o.S("limited_memory_update_type", sr1 ? "sr1" : "bfgs");
   static const char* ini[] = {"scalar1", "scalar2", "scalar3", "scalar4", "constant"};
   int init = s.below(5);
   a.o.S("limited_memory_initialization", ini[init]);
   int hist = s.flip(0.4) ? 6 : s.integer(0, 12), maxskip = s.integer(1, 3);
   if( hist != 6 || s.flip() )
      a.o.I("limited_memory_max_history", hist);
   a.o.I("limited_memory_max_skipping", maxskip);
   double iv = 1, imax = 1e8, imin = 1e-8;
   if( s.flip(0.4) )
      a.o.N("limited_memory_init_val", iv = s.logreal(0.01, 100));
   if( s.flip(0.3) )
      a.o.N("limited_memory_init_val_max", imax = s.logreal(0.5, 1e4));
   else
      a.o.N("limited_memory_init_val_max", imax);
   if( s.flip(0.3) )
      a.o.N("limited_memory_init_val_min", imin = s.logreal(1e-4, 0.5));
   else
      a.o.N("limited_memory_init_val_min", imin);
   if( s.flip(0.5) )
      a.o.S("limited_memory_aug_solver", s.flip() ? "sherman-morrison" : "extended");
   int n = a.p.n, m = a.p.m;
   std::string ft = a.o.str("fixed_variable_treatment", "make_parameter");
   bool param = ft.compare(0, 14, "make_parameter") == 0;
   // nonlinear variables
   std::set<int> nl;
   bool given = s.flip(0.35), all = false;
   for( auto& h : a.p.hess_struct() )
      if( given )
      {
         nl.insert(h.first);
         nl.insert(h.second);
      }
   int nlin = 0;
   if( given )
      for( int i = 0; i < n; ++i )
         if( s.flip(0.15) )
            nl.insert(i);
   if( !given && s.flip(0.15) )
   {
      // leading linear variables
      std::set<int> h2;
      for( auto& h : a.p.hess_struct() )
      {
         h2.insert(h.first);
         h2.insert(h.second);
      }
      int lead = h2.empty() ? n : *h2.begin();
      nlin = s.integer(0, lead);
      if( nlin )
         a.o.I("num_linear_variables", nlin);
   }
   if( s.flip(0.15) )
   {
      all = true;
      a.o.S("hessian_approximation_space", "all-variables");
   }
   SmartPtr<RecTNLP> t = a.make();
   if( given )
   {
      t->give_nonlin = true;
      t->nonlin_vars.assign(nl.begin(), nl.end());
   }
   std::string nls;
   for( int i : nl )
      nls += pbt::fmt(" %d", i);
   c.desc << a.show() << "\n" << (given ? "nonlinear variables:" + nls : std::string()) << "\n";
   // positions of internal variables in the approximation space
   std::vector<int> pos;
   {
      int k = 0;
      for( int i = 0; i < n; ++i )
      {
         if( param && a.p.fixed(i) )
            continue;
         if( all || (given ? nl.count(i) > 0 : i >= nlin) )
            pos.push_back(k);
         ++k;
      }
   }
   int q = pos.size();
   St st, old, wst;   // wst: state when the matrix was set
   bool started = false, stopped = false;
   int skipped = 0, nupd = 0, nskip = 0, nreset = 0, ncmp = 0, nundo = 0;
   Vec lx, lg;
   std::vector<Vec> lJ;
   auto prev = t->on_iter;
   t->on_iter = [&](RecTNLP & u, const IterInfo & it, const IpoptData * data, IpoptCalculatedQuantities * cq) -> bool
   {
      if( it.mode == RegularMode && data && cq && !stopped )
      {
         Vec x = dv(*data->curr()->x());
         int N = x.size();
         auto bad = [&](const Vec & v)
         {
            for( double d : v )
               if( !(std::fabs(d) < 1e30) )
                  return true;
            return false;
         };
         // compare the matrix used for the last step
         if( started && IsValid(const_cast<IpoptData*>(data)->W()) )
         {
            LM B, B2;
            if( !build(wst, q, sr1, 0, 0, B) )
            {
               stopped = true;
            }
            else
            {
               LD mx = 0, df = 0;
               for( auto& r : B )
                  for( LD v : r )
                     mx = std::max(mx, fabsl(v));
               for( int k = 0; k < 4; ++k )
               {
                  if( !build(wst, q, sr1, 1e-15, k + 1, B2) )
                     df = INFINITY;
                  for( int i = 0; i < q; ++i )
                     for( int j = 0; j < q; ++j )
                        df = std::max(df, fabsl(B[i][j] - B2[i][j]));
               }
               double tol = (double)(1e-3 * std::max(mx, (LD)wst.sigma) + 1e6 * df) + 1e-12 * compact_cond(wst, q, sr1, (double)mx);
               SmartPtr<Vector> e = data->curr()->x()->MakeNew(), w = data->curr()->x()->MakeNew();
               LM R(N, LV(N, 0));
               for( int i = 0; i < q; ++i )
                  for( int j = 0; j < q; ++j )
                     R[pos[i]][pos[j]] = B[i][j];
               if( tol < 0.05 * mx || q == 0 )
               {
                  ncmp++;
                  if( c.verbose )
                  {
                     c.desc << "report " << it.iter << " sigma " << wst.sigma << " tol " << tol << "\n";
                     for( auto& p : wst.P )
                     {
                        c.desc << "  s";
                        for( double v : p.s )
                           c.desc << " " << v;
                        c.desc << "  y";
                        for( double v : p.y )
                           c.desc << " " << v;
                        c.desc << "\n";
                     }
                  }
                  for( int j = 0; j < N; ++j )
                  {
                     unit(*e, j);
                     const_cast<IpoptData*>(data)->W()->MultVector(1., *e, 0., *w);
                     Vec col = dv(*w);
                     for( int i = 0; i < N; ++i )
                     {
                        bool in = std::count(pos.begin(), pos.end(), i) && std::count(pos.begin(), pos.end(), j);
                        PBT_CHECK(c, std::fabs(col[i] - (double)R[i][j]) <= (in ? tol : 0.), "matrix", "matrix used after report %d: entry (%d,%d) is %.15g, expected %.15g (tolerance %g, %d pairs, sigma %g, %d updates, %d skipped, %d resets)", it.iter, i, j,
                                  col[i], (double)R[i][j], tol, (int)wst.P.size(), wst.sigma, nupd, nskip, nreset);
                     }
                     // positive definite in the space of the approximation
                     if( !sr1 && std::count(pos.begin(), pos.end(), j) )
                        PBT_CHECK(c, col[j] > -tol, "definite", "matrix used after report %d: diagonal entry %d is %g", it.iter, j, col[j]);
                  }
               }
               else
                  c.label("ill-conditioned");
            }
         }
         // the update that follows
         Vec g = dv(*cq->curr_grad_f());
         Vec yc = dv(*data->curr()->y_c()), yd = dv(*data->curr()->y_d()), y = yc;
         y.insert(y.end(), yd.begin(), yd.end());
         std::vector<Vec> J;
         {
            SmartPtr<Vector> w = data->curr()->x()->MakeNew();
            SmartPtr<Vector> e = data->curr()->y_c()->MakeNew();
            for( size_t j = 0; j < yc.size(); ++j )
            {
               unit(*e, j);
               cq->curr_jac_c()->TransMultVector(1., *e, 0., *w);
               J.push_back(dv(*w));
            }
            e = data->curr()->y_d()->MakeNew();
            for( size_t j = 0; j < yd.size(); ++j )
            {
               unit(*e, j);
               cq->curr_jac_d()->TransMultVector(1., *e, 0., *w);
               J.push_back(dv(*w));
            }
         }
         bool b = bad(x) || bad(g) || bad(y);
         for( auto& v : J )
            b = b || bad(v);
         if( b )
            stopped = true;
         if( !stopped )
         {
            if( !started || skipped >= maxskip )
            {
               nreset += started;
               started = true;
               st = St();
               st.sigma = iv;
               old = wst = st;
               skipped = 0;
            }
            else
            {
               Pair p;
               double smax = 0, sy = 0, sn = 0, yn = 0, sye = 0, yen = 0;
               for( int k : pos )
               {
                  double yy = g[k] - lg[k], ye = std::fabs(g[k]) + std::fabs(lg[k]);
                  for( size_t j = 0; j < y.size(); ++j )
                  {
                     yy += y[j] * (J[j][k] - lJ[j][k]);
                     ye += std::fabs(y[j]) * (std::fabs(J[j][k]) + std::fabs(lJ[j][k]));
                  }
                  double ss = x[k] - lx[k];
                  p.s.push_back(ss);
                  p.y.push_back(yy);
                  p.ye.push_back(ye * 3e-16 * (2 + y.size()));
                  smax = std::max(smax, std::fabs(ss));
                  sy += ss * yy;
                  sn += ss * ss;
                  yn += yy * yy;
                  yen += p.ye.back() * p.ye.back();
                  sye += std::fabs(ss) * (p.ye.back() + 1e-15 * std::fabs(yy));
               }
               bool skip = smax < 100. * std::numeric_limits<double>::epsilon(), retro = false;
               sn = std::sqrt(sn);
               yn = std::sqrt(yn);
               auto sigma = [&](double sty)
               {
                  double s1 = sty / (sn * sn), s2 = yn * yn / sty;
                  return init == 0 ? s1 : init == 1 ? s2 : init == 2 ? (s1 + s2) / 2 : init == 3 ? std::sqrt(s1 * s2) : iv;
               };
               auto add = [&]
               {
                  if( hist == 0 )
                     return;
                  st.P.push_back(p);
                  if( (int)st.P.size() > hist )
                     st.P.erase(st.P.begin());
               };
               if( !skip && !sr1 )
               {
                  double thr = std::sqrt(std::numeric_limits<double>::epsilon()) * sn * yn;
                  if( std::fabs(sy - thr) <= 10 * sye + 1e-9 * thr )
                  {
                     stopped = true;
                     c.label("borderline curvature");
                  }
                  skip = sy <= thr;
                  if( !skip )
                  {
                     add();
                     st.sigma = std::max(imin, std::min(imax, sigma(sy)));
                     st.serr = init == 4 ? 0 : sye / std::fabs(sy) + 2 * std::sqrt(yen) / yn;
                     if( sye > 1e-7 * std::fabs(sy) )
                        stopped = true;   // initialization known too inaccurately
                  }
               }
               else if( !skip )
               {
                  if( it.reg > 0 )
                  {
                     st = old;
                     retro = true;
                     nundo++;
                  }
                  old = st;
                  add();
                  if( st.P.size() == 1 )
                  {
                     st.sigma = iv;
                     st.serr = 0;
                  }
                  else
                  {
                     double ay = std::max(1e-8, std::fabs(sy));
                     if( init != 4 && sye > 1e-7 * ay )
                        stopped = true;
                     st.sigma = sigma(ay);
                     st.serr = init == 4 ? 0 : sye / ay + 2 * std::sqrt(yen) / yn;
                  }
                  if( hist > 0 )
                  {
                     // nearly singular middle matrix: skipped
                     std::vector<LV> S, Y;
                     for( auto& w : st.P )
                     {
                        S.push_back(LV(w.s.begin(), w.s.end()));
                        Y.push_back(LV(w.y.begin(), w.y.end()));
                     }
                     LV e = eig(srz(S, Y, st.sigma));
                     LD lo = INFINITY, hi = 0;
                     for( LD v : e )
                     {
                        lo = std::min(lo, fabsl(v));
                        hi = std::max(hi, fabsl(v));
                     }
                     // rounding of the middle matrix
                     double mag = 0;
                     for( auto& w : st.P )
                        for( auto& v : st.P )
                           for( int i = 0; i < q; ++i )
                              mag = std::max(mag, std::fabs(w.s[i]) * (std::fabs(v.y[i]) + st.sigma * std::fabs(v.s[i]) + 1e14 * v.ye[i]));
                     double ratio = hi > 0 ? (double)(lo / hi) : 0;
                     double noise = hi > 0 ? 1e-14 * mag / (double)hi : 1;
                     if( ratio > 0.5e-12 - noise && ratio < 2e-12 + noise )
                     {
                        stopped = true;
                        c.label("borderline SR1");
                     }
                     if( ratio < 1e-12 )
                     {
                        skip = true;
                        st = old;
                     }
                  }
               }
               if( skip )
               {
                  skipped++;
                  nskip++;
               }
               else
               {
                  nupd++;
                  skipped = retro ? skipped + 1 : 0;
               }
               if( skip && sr1 && retro )
                  c.label("undone and skipped");
               if( !skip )
                  wst = st;
               if( !skip && !sr1 )
               {
                  // the factorization that the implementation needs may fail (the update is skipped then)
                  double cond = 0;
                  compact_cond(st, q, sr1, st.sigma, &cond);
                  if( cond > 1e10 )
                  {
                     stopped = true;
                     c.label("stopped: middle matrix nearly singular");
                  }
               }
            }
            lx = x;
            lg = g;
            lJ = J;
         }
      }
      return prev ? prev(u, it, data, cq) : true;
   };
   t->out = nlp::solve(GetRawPtr(t), a.o);
   c.label(statname(t->out.app));
   c.label(sr1 ? "SR1" : "BFGS");
   if( nskip )
      c.label("skipped updates");
   if( nreset )
      c.label("resets");
   if( nundo )
      c.label("undone updates");
   if( nupd > hist )
      c.label("history exceeded");
   if( stopped )
      c.label("comparison ended early");
   if( q < n )
      c.label("subspace");
   c.nontrivial = nupd > 1 && ncmp > 1;
   (void)m;
}

int main(int argc, char** argv)
{
   pbt::Check k = {"P19", "matrices after at least two updates were compared", {{"history", lbfgs, 6000, 200000}}};
   return pbt::run_main(argc, argv, k);
}
