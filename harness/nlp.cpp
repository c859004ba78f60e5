#include "nlp.hpp"
#include <algorithm>
#include <cstring>
#include <limits>
#include <set>
#include <stdexcept>
using namespace Ipopt;
using pbt::Ctx;
using pbt::Src;

namespace nlp
{
const char* kindname[K_COUNT] = {"get_nlp_info", "get_bounds_info", "get_starting_point", "eval_f", "eval_grad_f", "eval_g", "eval_jac_g(structure)", "eval_jac_g", "eval_h(structure)",
                                 "eval_h", "intermediate_callback", "finalize_solution", "get_scaling_parameters", "other"
                                };

static void phi(int k, double t, double& v, double& d, double& h)
{
   switch( k )
   {
      case LIN: v = t; d = 1; h = 0; return;
      case SQ: v = 0.5 * t * t; d = t; h = 1; return;
      case QUART: v = t * t * t * t / 12; d = t * t * t / 3; h = t * t; return;
      case EXP: v = d = h = std::exp(t); return;
      case SQRT1: { double s = std::sqrt(1 + t * t); v = s; d = t / s; h = 1 / (s * s * s); return; }
      case LOGCOSH: { double a = std::fabs(t); v = a + std::log1p(std::exp(-2 * a)) - std::log(2.); double th = std::tanh(t); d = th; h = 1 - th * th; return; }
      case CUBE: v = t * t * t / 6; d = t * t / 2; h = t; return;
      case SIN: v = std::sin(t); d = std::cos(t); h = -v; return;
      case COS: v = std::cos(t); d = -std::sin(t); h = -v; return;
      case LOG1: { double q = 1 + t * t; v = std::log(q); d = 2 * t / q; h = 2 * (1 - t * t) / (q * q); return; }
      case LOG: v = std::log(t); d = 1 / t; h = -1 / (t * t); return;
      case SQROOT: v = std::sqrt(t); d = 0.5 / v; h = -0.25 / (t * v); return;
   }
}
static const char* phin[] = {"", "sq2", "quart", "exp", "sqrt1p", "logcosh", "cube6", "sin", "log1p2", "cos", "log", "sqrt"};
static double targ(const Term& t, const double* x)
{
   double s = t.b;
   for( auto& a : t.a )
      s += a.second * x[a.first];
   return s;
}
double Func::val(const double* x) const
{
   double s = c0, v, d, h;
   for( auto& q : t )
   {
      phi(q.kind, targ(q, x), v, d, h);
      s += q.c * v;
   }
   return s;
}
void Func::grad(const double* x, double* g, double w) const
{
   double v, d, h;
   for( auto& q : t )
   {
      phi(q.kind, targ(q, x), v, d, h);
      for( auto& a : q.a )
         g[a.first] += w * q.c * d * a.second;
   }
}
void Func::hess(const double* x, double* H, int n, double w) const
{
   double v, d, h;
   for( auto& q : t )
   {
      if( q.kind == LIN )
         continue;
      phi(q.kind, targ(q, x), v, d, h);
      for( auto& a : q.a )
         for( auto& b : q.a )
            H[a.first * n + b.first] += w * q.c * h * a.second * b.second;
   }
}
bool Func::linear() const
{
   for( auto& q : t )
      if( q.kind != LIN )
         return false;
   return true;
}
static std::string g6(double v)
{
   return pbt::fmt("%.10g", v);
}
std::string Func::show() const
{
   std::string s;
   if( c0 != 0 || t.empty() )
      s = g6(c0);
   for( auto& q : t )
   {
      if( !s.empty() )
         s += " + ";
      s += g6(q.c) + "*" + phin[q.kind] + "(";
      bool f = true;
      for( auto& a : q.a )
      {
         s += (f ? "" : "+") + g6(a.second) + "*x" + std::to_string(a.first);
         f = false;
      }
      if( q.b != 0 )
         s += "+" + g6(q.b);
      s += ")";
   }
   return s;
}
std::string vs(const Vec& v)
{
   std::string s = "[";
   for( size_t i = 0; i < v.size(); ++i )
      s += (i ? " " : "") + pbt::fmt("%.12g", v[i]);
   return s + "]";
}
std::string Problem::show() const
{
   std::string s = pbt::fmt("n=%d m=%d%s\n min ", n, m, known ? " (convex, known solution)" : "") + f.show() + "\n";
   for( int j = 0; j < m; ++j )
      s += " g" + std::to_string(j) + ": " + g6(gl[j]) + " <= " + g[j].show() + " <= " + g6(gu[j]) + "\n";
   for( int i = 0; i < n; ++i )
      s += " " + g6(xl[i]) + " <= x" + std::to_string(i) + " <= " + g6(xu[i]) + "  start " + g6(x0[i]) + "\n";
   if( known )
      s += " x*=" + vs(xs) + " lambda*=" + vs(lam) + " zL*=" + vs(zl) + " zU*=" + vs(zu) + " f*=" + g6(fs) + "\n";
   return s;
}
std::vector<std::pair<int, int> > Problem::jac_struct() const
{
   std::vector<std::pair<int, int> > v;
   for( int j = 0; j < m; ++j )
   {
      std::set<int> c;
      for( auto& q : g[j].t )
         for( auto& a : q.a )
            c.insert(a.first);
      for( int i : c )
         v.push_back(std::make_pair(j, i));
   }
   return v;
}
std::vector<std::pair<int, int> > Problem::hess_struct() const
{
   std::set<std::pair<int, int> > s;
   auto add = [&](const Func & fn)
   {
      for( auto& q : fn.t )
         if( q.kind != LIN )
            for( auto& a : q.a )
               for( auto& b : q.a )
                  if( a.first >= b.first )
                     s.insert(std::make_pair(a.first, b.first));
   };
   add(f);
   for( auto& fn : g )
      add(fn);
   return std::vector<std::pair<int, int> >(s.begin(), s.end());
}
Vec Problem::geval(const double* x) const
{
   Vec v(m);
   for( int j = 0; j < m; ++j )
      v[j] = g[j].val(x);
   return v;
}
Problem permute(const Problem& p, const std::vector<int>& pv, const std::vector<int>& pc)
{
   Problem q = p;
   std::vector<int> inv(p.n);
   for( int k = 0; k < p.n; ++k )
      inv[pv[k]] = k;
   auto mapf = [&](Func & f)
   {
      for( auto& t : f.t )
         for( auto& a : t.a )
            a.first = inv[a.first];
   };
   mapf(q.f);
   for( int k = 0; k < p.n; ++k )
   {
      q.xl[k] = p.xl[pv[k]];
      q.xu[k] = p.xu[pv[k]];
      q.x0[k] = p.x0[pv[k]];
      if( p.known )
      {
         q.xs[k] = p.xs[pv[k]];
         q.zl[k] = p.zl[pv[k]];
         q.zu[k] = p.zu[pv[k]];
      }
   }
   for( int k = 0; k < p.m; ++k )
   {
      q.g[k] = p.g[pc[k]];
      mapf(q.g[k]);
      q.gl[k] = p.gl[pc[k]];
      q.gu[k] = p.gu[pc[k]];
      if( p.known )
         q.lam[k] = p.lam[pc[k]];
   }
   return q;
}

// ------------------------------------------------------------------------------------------ generators
static std::vector<std::pair<int, double> > gen_lincomb(Src& s, int n, int maxnz, double amax)
{
   int k = s.integer(1, std::max(1, std::min(n, maxnz)));
   std::vector<std::pair<int, double> > a;
   std::set<int> used;
   for( int q = 0; q < k; ++q )
   {
      int i = (int)s.below((u_int64_t)n);
      if( !used.insert(i).second )
         continue;
      double v = s.nice(-amax, amax);
      if( v == 0 )
         v = 1;
      a.push_back(std::make_pair(i, v));
   }
   return a;
}
static Term lin(int i, double c)
{
   Term t;
   t.kind = LIN;
   t.c = c;
   t.a.push_back(std::make_pair(i, 1.));
   return t;
}
static const int convex_kinds[] = {SQ, QUART, EXP, SQRT1, LOGCOSH};
static Term gen_convex_term(Src& s, int n, const Vec& xs, bool quad)
{
   Term t;
   t.kind = quad ? (int)SQ : convex_kinds[s.below(5)];
   t.c = s.nice(0.25, 2);
   t.a = gen_lincomb(s, n, 3, t.kind == EXP ? 0.75 : 1.5);
   double d = 0;
   for( auto& a : t.a )
      d += a.second * xs[a.first];
   t.b = s.nice(-1, 1) - d;
   return t;
}

Problem gen_convex(Ctx& c, const GenCfg& cfg)
{
   Src& s = c.src;
   Problem p;
   int n = p.n = s.integer(cfg.nmin, cfg.nmax);
   p.convex = p.known = true;
   p.xs.resize(n);
   for( auto& v : p.xs )
      v = s.nice(-3, 3);
   p.xl.assign(n, -INF);
   p.xu.assign(n, INF);
   p.zl.assign(n, 0);
   p.zu.assign(n, 0);
   // objective
   for( int i = 0; i < n; ++i )
   {
      Term t;
      t.kind = SQ;
      t.c = s.nice(0.5, 4);
      t.a.push_back(std::make_pair(i, 1.));
      t.b = s.nice(-3, 3);
      p.f.t.push_back(t);
   }
   int k = s.integer(0, 3);
   for( int q = 0; q < k; ++q )
      p.f.t.push_back(gen_convex_term(s, n, p.xs, cfg.quadratic_only));
   p.f.c0 = s.flip(0.3) ? s.nice(-10, 10) : 0;
   // orthonormal basis of active gradients
   std::vector<Vec> basis;
   auto try_add = [&](Vec v) -> bool
   {
      double nv = 0;
      for( double x : v )
         nv += x * x;
      nv = std::sqrt(nv);
      if( nv < 1e-3 )
         return false;
      for( double& x : v )
         x /= nv;
      for( auto& b : basis )
      {
         double d = 0;
         for( int i = 0; i < n; ++i )
            d += b[i] * v[i];
         for( int i = 0; i < n; ++i )
            v[i] -= d * b[i];
      }
      double r = 0;
      for( double x : v )
         r += x * x;
      r = std::sqrt(r);
      if( r < 0.25 )
         return false;
      for( double& x : v )
         x /= r;
      basis.push_back(v);
      return true;
   };
   std::vector<double> rho(n, 0.);
   if( cfg.fixed )
      for( int i = 0; i < n; ++i )
         if( s.flip(0.25) )
         {
            Vec e(n, 0.);
            e[i] = 1;
            try_add(e);
            p.xl[i] = p.xu[i] = p.xs[i];
            double r = s.nice(-2, 2);
            p.zl[i] = std::max(r, 0.);
            p.zu[i] = std::max(-r, 0.);
         }
   int m = s.integer(0, cfg.mmax);
   for( int j = 0; j < m; ++j )
   {
      Func g;
      int type = s.weighted({cfg.inequalities ? 3 : 0, cfg.equalities ? 3 : 0, cfg.inequalities ? 2 : 0, cfg.inequalities ? 2 : 0, cfg.empty_rows ? 1 : 0}); // 0 upper, 1 eq, 2 lower, 3 range, 4 empty
      if( type == 4 && !s.flip(0.3) )
         type = 0;
      if( type == 0 && !cfg.inequalities )
         type = 1;
      if( type == 1 && !cfg.equalities )
         type = 0;
      double gl = -INF, gu = INF, lam = 0;
      if( type == 4 )
      {
         g.c0 = s.nice(-2, 2);
         gl = g.c0 - s.nice(0.5, 3);
         gu = s.flip() ? g.c0 + s.nice(0.5, 3) : INF;
      }
      else
      {
         auto lc = gen_lincomb(s, n, 4, 3);
         for( auto& a : lc )
            g.t.push_back(lin(a.first, a.second));
         if( type != 1 && type != 3 && cfg.nonlinear_constr )
         {
            int q = s.integer(0, 2);
            for( int r = 0; r < q; ++r )
            {
               Term t = gen_convex_term(s, n, p.xs, cfg.quadratic_only);
               if( type == 2 )
                  t.c = -t.c;
               g.t.push_back(t);
            }
         }
         if( s.flip(0.3) )
            g.c0 = s.nice(-5, 5);
         Vec gr(n, 0.);
         g.grad(p.xs.data(), gr.data());
         double v = g.val(p.xs.data());
         bool active = (type == 1 || s.flip(0.5)) && try_add(gr);
         double l = s.nice(0.25, 3);
         if( type == 1 && !active )
            type = 3;
         switch( type )
         {
            case 0:
               gu = active ? v : v + s.nice(0.5, 5);
               lam = active ? l : 0;
               break;
            case 1:
               gl = gu = v;
               lam = s.flip() ? -l : l;
               break;
            case 2:
               gl = active ? v : v - s.nice(0.5, 5);
               lam = active ? -l : 0;
               break;
            case 3:
            {
               bool up = s.flip();
               if( active && up )
               {
                  gu = v;
                  gl = v - s.nice(1, 5);
                  lam = l;
               }
               else if( active )
               {
                  gl = v;
                  gu = v + s.nice(1, 5);
                  lam = -l;
               }
               else
               {
                  gl = v - s.nice(0.5, 5);
                  gu = v + s.nice(0.5, 5);
               }
               break;
            }
         }
      }
      p.g.push_back(g);
      p.gl.push_back(gl);
      p.gu.push_back(gu);
      p.lam.push_back(lam);
   }
   p.m = m;
   if( cfg.bounds )
      for( int i = 0; i < n; ++i )
      {
         if( p.fixed(i) )
            continue;
         int type = s.integer(0, 3);
         Vec e(n, 0.);
         e[i] = 1;
         bool active = type > 0 && s.flip(0.4) && try_add(e);
         bool up = type == 2 || (type == 3 && s.flip());
         if( type == 1 || type == 3 )
            p.xl[i] = p.xs[i] - (active && !up ? 0. : s.nice(0.5, 5));
         if( type >= 2 )
            p.xu[i] = p.xs[i] + (active && up ? 0. : s.nice(0.5, 5));
         if( active )
            (up ? p.zu : p.zl)[i] = s.nice(0.25, 3);
      }
   // scaling of functions
   if( cfg.bigscale > 0 )
   {
      for( int j = 0; j < m; ++j )
         if( s.flip(cfg.bigscale) )
         {
            double w = std::pow(10., s.integer(-3, 4));
            for( auto& t : p.g[j].t )
               t.c *= w;
            p.g[j].c0 *= w;
            if( p.gl[j] > -INF )
               p.gl[j] = p.gl[j] == p.gu[j] ? p.gl[j] * w : p.gl[j] * w;
            if( p.gu[j] < INF )
               p.gu[j] *= w;
            p.lam[j] /= w;
         }
   }
   // stationarity
   Vec r(n, 0.);
   p.f.grad(p.xs.data(), r.data());
   for( int j = 0; j < m; ++j )
      p.g[j].grad(p.xs.data(), r.data(), p.lam[j]);
   for( int i = 0; i < n; ++i )
   {
      r[i] += p.zu[i] - p.zl[i];
      if( r[i] != 0 )
         p.f.t.push_back(lin(i, -r[i]));
   }
   if( cfg.bigscale > 0 && s.flip(cfg.bigscale) )
   {
      double w = std::pow(10., s.integer(-3, 4));
      for( auto& t : p.f.t )
         t.c *= w;
      p.f.c0 *= w;
      for( double& v : p.lam )
         v *= w;
      for( double& v : p.zl )
         v *= w;
      for( double& v : p.zu )
         v *= w;
   }
   p.fs = p.f.val(p.xs.data());
   p.x0.resize(n);
   bool at = s.flip(0.05);
   for( int i = 0; i < n; ++i )
      p.x0[i] = at ? p.xs[i] : s.nice(-4, 4);
   // bounds of linear equality rows must be exactly consistent with g(x*)
   for( int j = 0; j < m; ++j )
   {
      double v = p.g[j].val(p.xs.data());
      if( p.gl[j] == p.gu[j] )
         p.gl[j] = p.gu[j] = v;
   }
   return p;
}

Problem gen_general(Ctx& c, const GenCfg& cfg)
{
   Src& s = c.src;
   Problem p;
   int n = p.n = s.integer(cfg.nmin, cfg.nmax);
   Vec xf(n);
   for( auto& v : xf )
      v = s.nice(-3, 3);
   auto gen_term = [&](bool convexish) -> Term
   {
      Term t;
      static const int kinds[] = {LIN, SQ, QUART, EXP, SQRT1, LOGCOSH, CUBE, SIN, LOG1, COS};
      t.kind = cfg.quadratic_only ? (int)SQ : kinds[s.below(10)];
      t.c = s.nice(-2, 2);
      if( t.c == 0 )
         t.c = 1;
      if( convexish )
         t.c = std::fabs(t.c);
      t.a = gen_lincomb(s, n, 3, t.kind == EXP ? 0.5 : 1.5);
      t.b = s.nice(-1, 1);
      return t;
   };
   int k = s.integer(0, 4);
   for( int q = 0; q < k; ++q )
      p.f.t.push_back(gen_term(s.flip(0.6)));
   if( s.flip(0.7) )
      for( int i = 0; i < n; ++i )
      {
         Term t;
         t.kind = SQ;
         t.c = s.nice(0.5, 3);
         t.a.push_back(std::make_pair(i, 1.));
         t.b = s.nice(-3, 3);
         p.f.t.push_back(t);
      }
   int m = p.m = s.integer(0, cfg.mmax), neq = 0;
   int nfix = 0;
   std::vector<bool> fx(n, false);
   if( cfg.fixed )
      for( int i = 0; i < n; ++i )
         if( s.flip(0.2) )
         {
            fx[i] = true;
            ++nfix;
         }
   for( int j = 0; j < m; ++j )
   {
      Func g;
      auto lc = gen_lincomb(s, n, 4, 3);
      if( s.flip(0.8) )
         for( auto& a : lc )
            g.t.push_back(lin(a.first, a.second));
      int q = cfg.nonlinear_constr ? s.integer(0, 2) : 0;
      if( q == 0 && g.t.empty() && !s.flip(0.1) )
         for( auto& a : lc )
            g.t.push_back(lin(a.first, a.second));
      for( int r = 0; r < q; ++r )
         g.t.push_back(gen_term(false));
      double v = g.val(xf.data());
      int type = s.weighted({cfg.inequalities ? 2 : 0, cfg.equalities ? 3 : 0, cfg.inequalities ? 2 : 0, cfg.inequalities ? 2 : 0});
      if( type == 0 && !cfg.inequalities )
         type = 1;
      if( type == 1 && (g.t.empty() || neq >= n - nfix) )
         type = 0;
      double gl = -INF, gu = INF;
      if( type == 1 )
      {
         gl = gu = v;
         ++neq;
      }
      if( type == 0 || type == 3 )
         gu = v + (s.flip(0.3) ? 0.01 : s.nice(0.25, 4));
      if( type == 2 || type == 3 )
         gl = v - (s.flip(0.3) ? 0.01 : s.nice(0.25, 4));
      p.g.push_back(g);
      p.gl.push_back(gl);
      p.gu.push_back(gu);
   }
   p.xl.assign(n, -INF);
   p.xu.assign(n, INF);
   for( int i = 0; i < n; ++i )
   {
      if( fx[i] )
      {
         p.xl[i] = p.xu[i] = xf[i];
         continue;
      }
      if( !cfg.bounds )
         continue;
      int type = s.integer(0, 3);
      if( type == 1 || type == 3 )
         p.xl[i] = xf[i] - (s.flip(0.2) ? 0. : s.nice(0.25, 5));
      if( type >= 2 )
         p.xu[i] = xf[i] + (s.flip(0.2) && p.xl[i] < xf[i] ? 0. : s.nice(0.25, 5));
      if( p.xl[i] == p.xu[i] )
         p.xu[i] += 1;
   }
   p.x0.resize(n);
   for( int i = 0; i < n; ++i )
      p.x0[i] = s.nice(-4, 4);
   return p;
}

Problem gen_infeasible(Ctx& c, const GenCfg& cfg)
{
   GenCfg k = cfg;
   k.fixed = false;
   Problem p = gen_convex(c, k);
   Src& s = c.src;
   p.known = false;
   int type = s.integer(0, 3);
   auto addrow = [&](const Func & g, double gl, double gu)
   {
      p.g.push_back(g);
      p.gl.push_back(gl);
      p.gu.push_back(gu);
      p.m++;
   };
   double gap = s.nice(0.5, 5);
   if( type == 0 )
   {
      // contradictory parallel linear constraints
      Func g;
      auto lc = gen_lincomb(s, p.n, 3, 2);
      for( auto& a : lc )
         g.t.push_back(lin(a.first, a.second));
      double b = s.nice(-2, 2);
      addrow(g, -INF, b);
      addrow(g, b + gap, INF);
   }
   else if( type == 1 )
   {
      // nonnegative function <= negative number
      Func g;
      int q = s.integer(1, 2);
      for( int r = 0; r < q; ++r )
         g.t.push_back(gen_convex_term(s, p.n, p.xs, false));
      for( auto& t : g.t )
         if( t.kind == EXP )
            t.kind = SQ;
      addrow(g, -INF, -gap);
   }
   else if( type == 2 )
   {
      // linear constraint beyond the box
      Func g;
      double mx = 0;
      auto lc = gen_lincomb(s, p.n, 3, 2);
      for( auto& a : lc )
      {
         int i = a.first;
         if( p.xl[i] <= -INF )
            p.xl[i] = p.xu[i] < INF ? p.xu[i] - 3 : -2;
         if( p.xu[i] >= INF )
            p.xu[i] = p.xl[i] + 3;
         mx += std::max(a.second * p.xl[i], a.second * p.xu[i]);
         g.t.push_back(lin(i, a.second));
      }
      addrow(g, mx + gap, INF);
   }
   else
   {
      // equality sum of squares + gap = 0
      Func g;
      for( int i = 0; i < p.n; ++i )
      {
         Term t;
         t.kind = SQ;
         t.c = 1;
         t.a.push_back(std::make_pair(i, 1.));
         g.t.push_back(t);
      }
      int neq = 0;
      for( int j = 0; j < p.m; ++j )
         neq += p.gl[j] == p.gu[j];
      if( neq < p.n )
         addrow(g, -gap, -gap);
      else
         addrow(g, -INF, -gap);
   }
   return p;
}

Pres plain_pres(const Problem& p)
{
   Pres q;
   for( auto& e : p.jac_struct() )
      q.jac.push_back(Entry{e.first, e.second, 1.});
   for( auto& e : p.hess_struct() )
      q.hess.push_back(Entry{e.first, e.second, 1.});
   return q;
}
Pres gen_pres(Ctx& c, const Problem& p)
{
   Src& s = c.src;
   Pres q = plain_pres(p);
   q.fortran = s.flip();
   auto mangle = [&](std::vector<Entry>& v, int nr, int nc, bool sym)
   {
      std::vector<Entry> w;
      for( auto& e : v )
      {
         if( s.flip(0.15) )
         {
            double a = s.nice(-2, 3);
            w.push_back(Entry{e.r, e.c, a});
            w.push_back(Entry{e.r, e.c, 1 - a});
         }
         else
            w.push_back(e);
      }
      if( nr > 0 && nc > 0 && s.flip(0.3) )
         for( int k = s.integer(1, 3); k > 0; --k )
         {
            int r = (int)s.below((u_int64_t)nr), cc = (int)s.below((u_int64_t)nc);
            if( sym && r < cc )
               std::swap(r, cc);
            w.push_back(Entry{r, cc, 0.});
         }
      if( sym )
         for( auto& e : w )
            if( s.flip(0.3) )
               std::swap(e.r, e.c);
      if( s.flip(0.7) )
      {
         std::vector<int> pm = s.perm((int)w.size());
         std::vector<Entry> z;
         for( int i : pm )
            z.push_back(w[(size_t)i]);
         w = z;
      }
      v = w;
   };
   mangle(q.jac, p.m, p.n, false);
   mangle(q.hess, p.n, p.n, true);
   return q;
}

// ------------------------------------------------------------------------------------------ options
bool Opts::apply(OptionsList& o) const
{
   bool ok = true;
   for( auto& q : v )
      switch( q.type )
      {
         case 's': ok = o.SetStringValue(q.name, q.s) && ok; break;
         case 'n': ok = o.SetNumericValue(q.name, q.d) && ok; break;
         case 'i': ok = o.SetIntegerValue(q.name, q.i) && ok; break;
      }
   return ok;
}
std::string Opts::show() const
{
   std::string r;
   for( auto& q : v )
   {
      if( q.name == "print_level" || q.name == "sb" )
         continue;
      r += " " + q.name + "=" + (q.type == 's' ? q.s : q.type == 'n' ? g6(q.d) : std::to_string(q.i));
   }
   return r;
}
Opts base_opts()
{
   Opts o;
   o.I("print_level", 0).S("sb", "yes");
   return o;
}

// ------------------------------------------------------------------------------------------ RecTNLP
static void fillbad(double* v, int n, int f)
{
   for( int i = 0; i < n; ++i )
      v[i] = f == F_NAN ? std::numeric_limits<double>::quiet_NaN() : f == F_NINF ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
}
int RecTNLP::do_fault(int kind, const double* x)
{
   long k = kindcount[kind]++;
   if( !fault )
      return F_NONE;
   int f = fault(kind, k, x);
   if( f != F_NONE )
      ++faulted;
   if( f == F_THROW )
      throw UserException{42};
   return f;
}
void RecTNLP::enter(int kind, int n, int m, const double* x, bool new_x, const double* lam, bool new_lam, double objf)
{
   out.calls[kind]++;
   if( n != p.n )
      viol("wrong-n", pbt::fmt("%s called with n=%d instead of %d", kindname[kind], n, p.n));
   if( m >= 0 && m != p.m )
      viol("wrong-m", pbt::fmt("%s called with m=%d instead of %d", kindname[kind], m, p.m));
   if( x == NULL && p.n > 0 )
   {
      viol("null-x", pbt::fmt("%s called with x=NULL", kindname[kind]));
      return;
   }
   Vec xv(x, x + p.n);
   if( !new_x )
   {
      if( !have_last )
         viol("new_x", pbt::fmt("%s: new_x=false at the first evaluation", kindname[kind]));
      else if( p.n > 0 && memcmp(xv.data(), last_x.data(), sizeof(double) * (size_t)p.n) != 0 && xv != last_x )
         viol("new_x", pbt::fmt("%s: new_x=false but x=%s differs from the x of the preceding evaluation %s", kindname[kind], vs(xv).c_str(), vs(last_x).c_str()));
   }
   last_x = xv;
   have_last = true;
   if( lam )
   {
      Vec lv(lam, lam + p.m);
      if( !new_lam )
      {
         if( !last_lam_valid )
            viol("new_lambda", "eval_h: new_lambda=false at the first call with lambda");
         else if( lv != last_lam )
            viol("new_lambda", pbt::fmt("eval_h: new_lambda=false but lambda=%s differs from the previous %s", vs(lv).c_str(), vs(last_lam).c_str()));
      }
      last_lam = lv;
      last_lam_valid = true;
   }
   if( on_eval )
      on_eval(kind, x);
   if( keep_trace )
   {
      Event e;
      e.kind = kind;
      e.new_x = new_x;
      e.new_lam = new_lam;
      e.objf = objf;
      e.x = xv;
      if( lam )
         e.lam.assign(lam, lam + p.m);
      e.ret = true;
      trace.push_back(e);
   }
}
bool RecTNLP::get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st)
{
   out.calls[K_NLPINFO]++;
   int f = do_fault(K_NLPINFO, NULL);
   if( f == F_FALSE )
      return false;
   n = p.n;
   m = p.m;
   nj = (Index)pres.jac.size();
   nh = (Index)pres.hess.size();
   st = pres.fortran ? FORTRAN_STYLE : C_STYLE;
   return true;
}
bool RecTNLP::get_bounds_info(Index n, double* xl, double* xu, Index m, double* gl, double* gu)
{
   out.calls[K_BOUNDS]++;
   int f = do_fault(K_BOUNDS, NULL);
   if( n != p.n || m != p.m )
      viol("wrong-n", "get_bounds_info with wrong dimensions");
   for( int i = 0; i < p.n; ++i )
   {
      xl[i] = p.xl[i];
      xu[i] = p.xu[i];
   }
   for( int j = 0; j < p.m; ++j )
   {
      gl[j] = p.gl[j];
      gu[j] = p.gu[j];
   }
   return f != F_FALSE;
}
bool RecTNLP::get_scaling_parameters(double& os, bool& ux, Index n, double* xs, bool& ug, Index m, double* gs)
{
   out.calls[K_SCALING]++;
   if( n != p.n || m != p.m )
      viol("wrong-n", "get_scaling_parameters with wrong dimensions");
   if( !give_scaling )
      return false;
   os = obj_scaling;
   ux = use_x_scaling;
   ug = use_g_scaling;
   if( ux )
      for( int i = 0; i < p.n; ++i )
         xs[i] = x_scaling[i];
   if( ug )
      for( int j = 0; j < p.m; ++j )
         gs[j] = g_scaling[j];
   return true;
}
bool RecTNLP::get_starting_point(Index n, bool ix, double* x, bool iz, double* zl, double* zu, Index m, bool il, double* lam)
{
   out.calls[K_START]++;
   int f = do_fault(K_START, NULL);
   if( n != p.n || m != p.m )
      viol("wrong-n", "get_starting_point with wrong dimensions");
   if( f == F_FALSE )
      return false;
   if( ix )
      for( int i = 0; i < p.n; ++i )
         x[i] = start_x.empty() ? p.x0[i] : start_x[i];
   if( iz )
      for( int i = 0; i < p.n; ++i )
      {
         zl[i] = start_zl.empty() ? 1. : start_zl[i];
         zu[i] = start_zu.empty() ? 1. : start_zu[i];
      }
   if( il )
      for( int j = 0; j < p.m; ++j )
         lam[j] = start_lam.empty() ? 0. : start_lam[j];
   if( (iz && no_start_z) || (il && no_start_lam) )
      return false;
   if( f == F_NAN && ix && p.n > 0 )
      x[0] = std::numeric_limits<double>::quiet_NaN();
   return true;
}
bool RecTNLP::eval_f(Index n, const double* x, bool new_x, double& v)
{
   enter(K_F, n, -1, x, new_x, NULL, true, 0);
   int f = do_fault(K_F, x);
   if( f == F_FALSE )
   {
      if( keep_trace )
         trace.back().ret = false;
      return false;
   }
   v = p.f.val(x);
   if( f == F_NAN || f == F_INF || f == F_NINF || f == F_NAN1 )
      fillbad(&v, 1, f == F_NAN1 ? (int)F_NAN : f);
   return true;
}
bool RecTNLP::eval_grad_f(Index n, const double* x, bool new_x, double* g)
{
   enter(K_GRAD, n, -1, x, new_x, NULL, true, 0);
   if( derivs_forbidden_g )
      viol("unneeded-grad", "eval_grad_f called although gradient_approximation=finite-difference-values");
   int f = do_fault(K_GRAD, x);
   if( f == F_FALSE )
      return false;
   for( int i = 0; i < p.n; ++i )
      g[i] = 0;
   p.f.grad(x, g);
   if( mod_grad )
      mod_grad(g);
   if( f == F_NAN || f == F_INF || f == F_NINF )
      fillbad(g, p.n, f);
   if( f == F_NAN1 && p.n > 0 )
      fillbad(g + p.n - 1, 1, F_NAN);
   return true;
}
bool RecTNLP::eval_g(Index n, const double* x, bool new_x, Index m, double* g)
{
   enter(K_G, n, m, x, new_x, NULL, true, 0);
   int f = do_fault(K_G, x);
   if( f == F_FALSE )
   {
      if( keep_trace )
         trace.back().ret = false;
      return false;
   }
   for( int j = 0; j < p.m; ++j )
      g[j] = p.g[j].val(x);
   if( f == F_NAN || f == F_INF || f == F_NINF )
      fillbad(g, p.m, f);
   if( f == F_NAN1 && p.m > 0 )
      fillbad(g + p.m - 1, 1, F_NAN);
   return true;
}
bool RecTNLP::eval_jac_g(Index n, const double* x, bool new_x, Index m, Index nele, Index* iRow, Index* jCol, double* values)
{
   if( nele != (Index)pres.jac.size() )
      viol("wrong-nnz", pbt::fmt("eval_jac_g called with nele_jac=%d instead of %d", nele, (int)pres.jac.size()));
   int o = pres.fortran ? 1 : 0;
   if( values == NULL )
   {
      out.calls[K_JACS]++;
      if( n != p.n || m != p.m )
         viol("wrong-n", "eval_jac_g(structure) with wrong dimensions");
      if( (iRow == NULL || jCol == NULL) && nele > 0 )
      {
         viol("null-struct", "eval_jac_g structure call with NULL iRow/jCol");
         return false;
      }
      int f = do_fault(K_JACS, NULL);
      if( f == F_FALSE )
         return false;
      for( size_t k = 0; k < pres.jac.size(); ++k )
      {
         iRow[k] = pres.jac[k].r + o;
         jCol[k] = pres.jac[k].c + o;
      }
      return true;
   }
   enter(K_JAC, n, m, x, new_x, NULL, true, 0);
   if( iRow != NULL || jCol != NULL )
      viol("struct-nonnull", "eval_jac_g values call with non-NULL iRow/jCol");
   if( out.calls[K_JACS] == 0 )
      viol("structure-first", "eval_jac_g values requested before the structure");
   if( derivs_forbidden_j )
      viol("unneeded-jac", "eval_jac_g values called although jacobian_approximation=finite-difference-values");
   int f = do_fault(K_JAC, x);
   if( f == F_FALSE )
      return false;
   Vec J((size_t)(p.m * p.n), 0.);
   for( int j = 0; j < p.m; ++j )
      p.g[j].grad(x, J.data() + j * p.n);
   for( size_t k = 0; k < pres.jac.size(); ++k )
      values[k] = pres.jac[k].w * (pres.jac[k].w == 0 ? 0. : J[(size_t)(pres.jac[k].r * p.n + pres.jac[k].c)]);
   if( mod_jac )
      mod_jac(values);
   if( f == F_NAN || f == F_INF || f == F_NINF )
      fillbad(values, nele, f);
   if( f == F_NAN1 && nele > 0 )
      fillbad(values + nele - 1, 1, F_NAN);
   return true;
}
bool RecTNLP::eval_h(Index n, const double* x, bool new_x, double objf, Index m, const double* lam, bool new_lam, Index nele, Index* iRow, Index* jCol, double* values)
{
   if( nele != (Index)pres.hess.size() )
      viol("wrong-nnz", pbt::fmt("eval_h called with nele_hess=%d instead of %d", nele, (int)pres.hess.size()));
   if( derivs_forbidden_h )
      viol("unneeded-call", "eval_h called although hessian_approximation=limited-memory");
   int o = pres.fortran ? 1 : 0;
   if( values == NULL )
   {
      out.calls[K_HESSS]++;
      if( n != p.n || m != p.m )
         viol("wrong-n", "eval_h(structure) with wrong dimensions");
      if( (iRow == NULL || jCol == NULL) && nele > 0 )
      {
         viol("null-struct", "eval_h structure call with NULL iRow/jCol");
         return false;
      }
      int f = do_fault(K_HESSS, NULL);
      if( f == F_FALSE )
         return false;
      for( size_t k = 0; k < pres.hess.size(); ++k )
      {
         iRow[k] = pres.hess[k].r + o;
         jCol[k] = pres.hess[k].c + o;
      }
      return true;
   }
   if( lam == NULL && p.m > 0 )
   {
      viol("null-lambda", "eval_h values call with lambda=NULL");
      return false;
   }
   enter(K_HESS, n, m, x, new_x, lam, new_lam, objf);
   if( iRow != NULL || jCol != NULL )
      viol("struct-nonnull", "eval_h values call with non-NULL iRow/jCol");
   if( out.calls[K_HESSS] == 0 )
      viol("structure-first", "eval_h values requested before the structure");
   int f = do_fault(K_HESS, x);
   if( f == F_FALSE )
      return false;
   Vec H((size_t)(p.n * p.n), 0.);
   p.f.hess(x, H.data(), p.n, objf);
   for( int j = 0; j < p.m; ++j )
      if( lam[j] != 0 )
         p.g[j].hess(x, H.data(), p.n, lam[j]);
   for( size_t k = 0; k < pres.hess.size(); ++k )
      values[k] = pres.hess[k].w * (pres.hess[k].w == 0 ? 0. : H[(size_t)(pres.hess[k].r * p.n + pres.hess[k].c)]);
   if( mod_hess )
      mod_hess(values);
   if( f == F_NAN || f == F_INF || f == F_NINF )
      fillbad(values, nele, f);
   if( f == F_NAN1 && nele > 0 )
      fillbad(values + nele - 1, 1, F_NAN);
   return true;
}
void RecTNLP::finalize_solution(SolverReturn status, Index n, const double* x, const double* zl, const double* zu, Index m, const double* g, const double* lam, double obj, const IpoptData* d,
                                IpoptCalculatedQuantities* cq)
{
   out.calls[K_FINAL]++;
   out.nfinal++;
   if( n != p.n || m != p.m )
      viol("wrong-n", "finalize_solution with wrong dimensions");
   out.fin = status;
   out.x.assign(x, x + p.n);
   out.zl.assign(zl, zl + p.n);
   out.zu.assign(zu, zu + p.n);
   out.g.assign(g, g + p.m);
   out.lam.assign(lam, lam + p.m);
   out.obj = obj;
   if( d )
      out.iter_count = d->iter_count();
   if( on_final )
      on_final(*this, d, cq);
}
bool RecTNLP::intermediate_callback(AlgorithmMode mode, Index iter, double obj, double ip, double id, double mu, double dn, double reg, double ad, double ap, Index ls, const IpoptData* d,
                                    IpoptCalculatedQuantities* cq)
{
   out.calls[K_ITER]++;
   IterInfo i = {mode, iter, obj, ip, id, mu, dn, reg, ad, ap, ls};
   out.iters.push_back(i);
   do_fault(K_ITER, NULL);
   if( on_iter )
      return on_iter(*this, i, d, cq);
   return true;
}
Index RecTNLP::get_number_of_nonlinear_variables()
{
   return give_nonlin ? (Index)nonlin_vars.size() : -1;
}
bool RecTNLP::get_list_of_nonlinear_variables(Index k, Index* pos)
{
   if( k != (Index)nonlin_vars.size() )
      viol("wrong-n", "get_list_of_nonlinear_variables with wrong count");
   for( size_t q = 0; q < nonlin_vars.size(); ++q )
      pos[q] = nonlin_vars[q] + (pres.fortran ? 1 : 0);
   return true;
}

// ------------------------------------------------------------------------------------------ solving
void grab_stats(IpoptApplication& app, Outcome& o)
{
   SmartPtr<SolveStatistics> st = app.Statistics();
   if( !IsValid(st) )
      return;
   o.have_stats = true;
   o.iter_count = st->IterationCount();
   o.st_obj = st->FinalObjective();
   o.st_sobj = st->FinalScaledObjective();
   st->Infeasibilities(o.st_dual, o.st_constr, o.st_bound, o.st_compl, o.st_kkt);
   st->ScaledInfeasibilities(o.st_sdual, o.st_sconstr, o.st_sbound, o.st_scompl, o.st_skkt);
   st->NumberOfEvaluations(o.ev_f, o.ev_c, o.ev_g, o.ev_j, o.ev_h);
}
Outcome solve(RecTNLP* t, const Opts& o)
{
   SmartPtr<TNLP> keep = t;
   const char* pl = getenv("NLP_PRINT");
   SmartPtr<IpoptApplication> app = new IpoptApplication(pl != NULL);
   o.apply(*app->Options());
   if( pl )
      app->Options()->SetIntegerValue("print_level", atoi(pl));
   ApplicationReturnStatus st = app->Initialize("");
   if( st == Solve_Succeeded )
      st = app->OptimizeTNLP(keep);
   t->out.app = st;
   grab_stats(*app, t->out);
   return t->out;
}
Outcome solve(const Problem& p, const Opts& o)
{
   SmartPtr<RecTNLP> t = new RecTNLP(p, plain_pres(p));
   return solve(GetRawPtr(t), o);
}

double maxabs(const Vec& v)
{
   double m = 0;
   for( double x : v )
   {
      if( std::isnan(x) )
         return x;
      m = std::max(m, std::fabs(x));
   }
   return m;
}
double maxdiff(const Vec& a, const Vec& b)
{
   double m = 0;
   if( a.size() != b.size() )
      return std::numeric_limits<double>::infinity();
   for( size_t i = 0; i < a.size(); ++i )
   {
      double d = a[i] == b[i] ? 0. : std::fabs(a[i] - b[i]);
      if( std::isnan(d) )
         return std::numeric_limits<double>::infinity();
      m = std::max(m, d);
   }
   return m;
}
bool eqbits(const Vec& a, const Vec& b)
{
   return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
KKT kkt(const Problem& p, const Vec& x, const Vec& lam, const Vec& zl, const Vec& zu)
{
   KKT k;
   k.r.assign(p.n, 0.);
   p.f.grad(x.data(), k.r.data());
   for( int j = 0; j < p.m; ++j )
      p.g[j].grad(x.data(), k.r.data(), lam[j]);
   for( int i = 0; i < p.n; ++i )
   {
      k.r[i] += zu[i] - zl[i];
      k.dual = std::max(k.dual, std::fabs(k.r[i]));
      if( std::isnan(k.r[i]) )
         k.dual = k.r[i];
      if( p.xl[i] > -1e19 )
      {
         k.bound = std::max(k.bound, p.xl[i] - x[i]);
         k.compl_ = std::max(k.compl_, std::fabs(zl[i] * (x[i] - p.xl[i])));
      }
      if( p.xu[i] < 1e19 )
      {
         k.bound = std::max(k.bound, x[i] - p.xu[i]);
         k.compl_ = std::max(k.compl_, std::fabs(zu[i] * (p.xu[i] - x[i])));
      }
   }
   Vec g = p.geval(x.data());
   for( int j = 0; j < p.m; ++j )
   {
      k.constr = std::max(k.constr, std::max(p.gl[j] > -1e19 ? p.gl[j] - g[j] : 0., p.gu[j] < 1e19 ? g[j] - p.gu[j] : 0.));
      if( p.gl[j] == p.gu[j] )
         continue;
      if( lam[j] > 0 )
         k.compl_ = std::max(k.compl_, p.gu[j] < 1e19 ? lam[j] * std::fabs(p.gu[j] - g[j]) : lam[j]);
      if( lam[j] < 0 )
         k.compl_ = std::max(k.compl_, p.gl[j] > -1e19 ? -lam[j] * std::fabs(g[j] - p.gl[j]) : -lam[j]);
   }
   return k;
}
const char* statname(ApplicationReturnStatus s)
{
   switch( s )
   {
#define X(n) case n: return #n;
      X(Solve_Succeeded) X(Solved_To_Acceptable_Level) X(Infeasible_Problem_Detected) X(Search_Direction_Becomes_Too_Small) X(Diverging_Iterates) X(User_Requested_Stop)
      X(Feasible_Point_Found) X(Maximum_Iterations_Exceeded) X(Restoration_Failed) X(Error_In_Step_Computation) X(Maximum_CpuTime_Exceeded) X(Maximum_WallTime_Exceeded)
      X(Not_Enough_Degrees_Of_Freedom) X(Invalid_Problem_Definition) X(Invalid_Option) X(Invalid_Number_Detected) X(Unrecoverable_Exception) X(NonIpopt_Exception_Thrown)
      X(Insufficient_Memory) X(Internal_Error)
#undef X
   }
   return "?";
}
double gs_min(std::vector<Vec> rows)
{
   double mn = 1e300;
   std::vector<Vec> b;
   for( auto& v : rows )
   {
      for( auto& q : b )
      {
         double d = 0;
         for( size_t i = 0; i < v.size(); ++i )
            d += q[i] * v[i];
         for( size_t i = 0; i < v.size(); ++i )
            v[i] -= d * q[i];
      }
      double r = 0;
      for( double x : v )
         r += x * x;
      r = std::sqrt(r);
      mn = std::min(mn, r);
      if( r > 0 )
      {
         for( double& x : v )
            x /= r;
         b.push_back(v);
      }
   }
   return mn;
}
void known_cond(const Problem& p, double& cx, double& cy)
{
   std::vector<Vec> rows;
   Vec H((size_t)(p.n * p.n), 0.);
   p.f.hess(p.xs.data(), H.data(), p.n, 1);
   for( int i = 0; i < p.n; ++i )
      if( p.zl[i] != 0 || p.zu[i] != 0 || p.fixed(i) )
      {
         Vec v(p.n, 0.);
         v[i] = 1;
         rows.push_back(v);
      }
   for( int j = 0; j < p.m; ++j )
   {
      if( p.lam[j] != 0 )
         p.g[j].hess(p.xs.data(), H.data(), p.n, p.lam[j]);
      if( p.lam[j] == 0 && p.gl[j] != p.gu[j] )
         continue;
      Vec v(p.n, 0.);
      p.g[j].grad(p.xs.data(), v.data());
      rows.push_back(v);
   }
   double s = std::min(1., rows.empty() ? 1. : gs_min(rows));
   std::reverse(rows.begin(), rows.end());
   s = std::min(s, rows.empty() ? 1. : gs_min(rows));
   double h = 1 + maxabs(H) / 10;
   cx = 1 / s;
   cy = h / (s * s);
}
bool dense_solve(std::vector<Vec> A, Vec b, Vec& x)
{
   int n = (int)b.size();
   for( int k = 0; k < n; ++k )
   {
      int p = k;
      for( int i = k + 1; i < n; ++i )
         if( std::fabs(A[i][k]) > std::fabs(A[p][k]) )
            p = i;
      if( !(std::fabs(A[p][k]) > 1e-300) )
         return false;
      std::swap(A[p], A[k]);
      std::swap(b[p], b[k]);
      for( int i = k + 1; i < n; ++i )
      {
         double f = A[i][k] / A[k][k];
         if( f == 0 )
            continue;
         for( int j = k; j < n; ++j )
            A[i][j] -= f * A[k][j];
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0.);
   for( int k = n; k-- > 0; )
   {
      double s = b[k];
      for( int j = k + 1; j < n; ++j )
         s -= A[k][j] * x[j];
      x[k] = s / A[k][k];
   }
   return true;
}
}
