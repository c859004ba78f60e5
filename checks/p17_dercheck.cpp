// P17: the derivative checker flags exactly the wrong derivatives.
#include "anycase.hpp"
#include "twin.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

/** wrong[0]: gradient deltas; jac: per entry of the representation; hess: per entry, for objective (-1) or a constraint */
struct CorTNLP : RecTNLP
{
   Vec dg, dj;
   struct H { int k, which; double d; };
   std::vector<H> dh;
   CorTNLP(const Problem& p_, const Pres& q) : RecTNLP(p_, q) { }
   bool eval_grad_f(Index n, const double* x, bool new_x, double* g) override
   {
      bool r = RecTNLP::eval_grad_f(n, x, new_x, g);
      for( int i = 0; i < n && !dg.empty(); ++i )
         g[i] += dg[i];
      return r;
   }
   bool eval_jac_g(Index n, const double* x, bool new_x, Index m, Index nele, Index* iRow, Index* jCol, double* v) override
   {
      bool r = RecTNLP::eval_jac_g(n, x, new_x, m, nele, iRow, jCol, v);
      if( v )
         for( int k = 0; k < nele && !dj.empty(); ++k )
            v[k] += dj[k];
      return r;
   }
   bool eval_h(Index n, const double* x, bool new_x, double of, Index m, const double* lam, bool nl, Index nele, Index* iRow, Index* jCol, double* v) override
   {
      bool r = RecTNLP::eval_h(n, x, new_x, of, m, lam, nl, nele, iRow, jCol, v);
      if( v )
         for( auto& h : dh )
            v[h.k] += h.d * (h.which < 0 ? of : lam[h.which]);
      return r;
   }
};

struct Line { bool flag, v; double exact, approx, rel; };
typedef std::map<std::vector<int>, Line> Lines;   // {0,i} grad, {1,i,j} jac, {2,icon,i,j} hess

static bool parse(const std::string& log, Lines& L, int& count, bool& noerr, std::string& err)
{
   std::istringstream in(log);
   std::string l;
   count = -1;
   noerr = false;
   while( std::getline(in, l) )
   {
      int a, b, q;
      double e, d, r;
      char f, s = ' ';
      if( l.find("No errors detected by derivative checker") != std::string::npos )
         noerr = true;
      if( sscanf(l.c_str(), "Derivative checker detected %d error", &a) == 1 )
         count = a;
      size_t k = l.find(" = ");
      if( k == std::string::npos || l.size() < 2 )
         continue;
      std::vector<int> key;
      std::string h = l.substr(1, k - 1);
      f = l[0];
      if( h.find("grad_f[") != std::string::npos && sscanf(h.c_str(), " grad_f[ %d]", &a) == 1 )
         key = {0, a};
      else if( h.find("jac_g [") != std::string::npos && sscanf(h.c_str(), " jac_g [ %d, %d]", &a, &b) == 2 )
         key = {1, a, b};
      else if( h.find("obj_hess[") != std::string::npos && sscanf(h.c_str(), " obj_hess[ %d, %d]", &a, &b) == 2 )
         key = {2, -1, a, b};
      else if( h.find("constr_hess[") != std::string::npos && sscanf(h.c_str(), " %d-th constr_hess[ %d, %d]", &q, &a, &b) == 3 )
         key = {2, q, a, b};
      else
         continue;
      std::string t = l.substr(k + 3);
      if( key[0] == 0 )
      {
         if( sscanf(t.c_str(), "%lf ~ %lf [ %lf]", &e, &d, &r) != 3 )
         {
            err = l;
            return false;
         }
      }
      else
      {
         char* p;
         e = strtod(t.c_str(), &p);
         s = p[0] == ' ' ? p[1] : '?';
         if( sscanf(p + 2, " ~ %lf [ %lf]", &d, &r) != 2 )
         {
            err = l;
            return false;
         }
      }
      if( L.count(key) || (f != ' ' && f != '*') || (s != ' ' && s != 'v') )
      {
         err = "unexpected or repeated: " + l;
         return false;
      }
      L[key] = {f == '*', s == 'v', e, d, r};
   }
   return true;
}

static void checker(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_USERSCALE | AF_FIXEDTREAT | AF_LIMITS | AF_INFEAS | AF_WARM, 0.03);
   a.o.S("check_derivatives_for_naninf", "yes");
   int n = a.p.n, m = a.p.m;
   // remove structure
   std::string note;
   auto removestruct = [&](std::vector<Entry>& v, const char* nm)
   {
      if( v.empty() || !s.flip(0.25) )
         return;
      Entry e = v[s.below(v.size())];
      std::vector<Entry> w;
      for( auto& q : v )
         if( !(q.r == e.r && q.c == e.c) && !(nm[0] == 'h' && q.r == e.c && q.c == e.r) )
            w.push_back(q);
      v = w;
      note += pbt::fmt(" %s entry (%d,%d) missing;", nm, e.r, e.c);
   };
   removestruct(a.pres.jac, "jac");
   removestruct(a.pres.hess, "hess");
   CorTNLP* t = new CorTNLP(a.p, a.pres);
   SmartPtr<TNLP> keep = t;
   SmartPtr<CorTNLP> u = new CorTNLP(a.p, a.pres);
   for( CorTNLP* q : {t, GetRawPtr(u)} )
   {
      for( auto& f : a.setup )
         f(*q);
      q->keep_trace = true;
   }
   if( s.flip(0.2) )
   {
      Vec x;
      for( int i = 0; i < n; ++i )
         x.push_back(s.nice(-6, 6));
      t->start_x = u->start_x = x;
      note += " start " + vs(x);
   }
   auto delta = [&]
   {
      return (s.flip() ? 1 : -1) * std::pow(10., s.real(-6, 1));
   };
   if( s.flip(0.4) )
   {
      t->dg.assign(n, 0.);
      int i = s.below(n);
      t->dg[i] = delta();
      note += pbt::fmt(" gradient entry %d off by %g;", i, t->dg[i]);
   }
   if( !a.pres.jac.empty() && s.flip(0.4) )
   {
      t->dj.assign(a.pres.jac.size(), 0.);
      for( int k = s.integer(1, 3); k > 0; --k )
      {
         int i = s.below(a.pres.jac.size());
         t->dj[i] = delta();
         note += pbt::fmt(" Jacobian entry %d (%d,%d) off by %g;", i, a.pres.jac[i].r, a.pres.jac[i].c, t->dj[i]);
      }
   }
   if( !a.pres.hess.empty() && s.flip(0.4) )
      for( int k = s.integer(1, 3); k > 0; --k )
      {
         int i = s.below(a.pres.hess.size()), w = s.integer(-1, m - 1);
         t->dh.push_back({i, w, delta()});
         note += pbt::fmt(" Hessian entry %d (%d,%d) of %d off by %g;", i, a.pres.hess[i].r, a.pres.hess[i].c, w, t->dh.back().d);
      }
   u->dg = t->dg;
   u->dj = t->dj;
   u->dh = t->dh;
   Opts o = a.o;
   int mode = s.below(3);
   static const char* md[] = {"first-order", "second-order", "only-second-order"};
   o.S("derivative_test", md[mode]);
   double tol = 1e-4, pert = 1e-8, rad = 10;
   if( s.flip(0.3) )
      o.N("derivative_test_tol", tol = s.flip() ? 1e-2 : 1e-5);
   if( s.flip(0.3) )
      o.N("derivative_test_perturbation", pert = s.flip() ? 1e-6 : 1e-7);
   if( s.flip(0.4) )
      o.N("point_perturbation_radius", rad = s.flip() ? 0 : s.nice(0.1, 2));
   bool all = s.flip(0.4);
   if( all )
      o.S("derivative_test_print_all", "yes");
   int first = -2;
   if( s.flip(0.25) )
      o.I("derivative_test_first_index", first = s.integer(-2, n + 1));
   c.desc << a.p.show() << o.show() << "\n" << a.note << (a.pres.fortran ? "Fortran style" : "C style") << note << "\n";
   // with the checker
   std::ostringstream log;
   {
      SmartPtr<IpoptApplication> app = new IpoptApplication(false);
      o.apply(*app->Options());
      SmartPtr<StreamJournal> j = new StreamJournal("log", s.flip(0.3) ? J_ITERSUMMARY : J_WARNING);
      j->SetOutputStream(&log);
      app->Jnlst()->AddJournal(GetRawPtr(j));
      ApplicationReturnStatus st = app->Initialize("");
      if( st == Solve_Succeeded )
         st = app->OptimizeTNLP(keep);
      t->out.app = st;
      grab_stats(*app, t->out);
   }
   if( c.verbose )
      printf("%s\n", log.str().c_str());
   u->out = nlp::solve(GetRawPtr(u), a.o);
   c.label(md[mode]);
   // reference point
   int k0 = -1;
   for( size_t k = 0; k < t->trace.size() && k0 < 0; ++k )
      if( t->trace[k].kind == K_F )
         k0 = (int)k;
   Lines L;
   int count;
   bool noerr;
   std::string err;
   PBT_CHECK(c, parse(log.str(), L, count, noerr, err), "output", "cannot read output line \"%s\"", err.c_str());
   PBT_CHECK(c, k0 >= 0, "point", "no function was evaluated");
   Vec x = t->trace[k0].x, st0 = t->start_x.empty() ? a.p.x0 : t->start_x;
   for( int i = 0; i < n; ++i )
   {
      double pr = std::max(a.p.xl[i], std::min(a.p.xu[i], st0[i]));
      PBT_CHECK(c, x[i] >= a.p.xl[i] && x[i] <= a.p.xu[i] && std::fabs(x[i] - pr) <= rad * (1 + 1e-14) + 1e-14 * std::fabs(pr), "point", "derivatives are tested at x[%d] = %.17g, not within %g of the projected starting value %g or outside of [%g,%g]", i, x[i],
                rad, pr, a.p.xl[i], a.p.xu[i]);
   }
   // expectation
   int oc = a.pres.fortran ? 1 : 0, nflag = 0, nunsure = 0, nwrong = 0;
   std::set<std::vector<int> > expectkeys;
   Vec g0 = a.p.geval(x.data());
   double f0 = a.p.f.val(x.data());
   auto grad = [&](const Vec & y)
   {
      Vec g(n, 0.);
      a.p.f.grad(y.data(), g.data());
      for( int i = 0; i < n && !t->dg.empty(); ++i )
         g[i] += t->dg[i];
      return g;
   };
   auto jac = [&](const Vec & y, std::vector<char>* have)
   {
      Vec T((size_t)m * n, 0.), J((size_t)m * n, 0.);
      for( int j = 0; j < m; ++j )
         a.p.g[j].grad(y.data(), T.data() + j * n);
      for( size_t k = 0; k < a.pres.jac.size(); ++k )
      {
         auto& e = a.pres.jac[k];
         J[e.r * n + e.c] += (e.w == 0 ? 0. : e.w * T[e.r * n + e.c]) + (t->dj.empty() ? 0. : t->dj[k]);
         if( have )
            (*have)[e.r * n + e.c] = 1;
      }
      return J;
   };
   std::vector<char> jh((size_t)m * n, 0);
   Vec G = grad(x), J = jac(x, &jh);
   auto judge = [&](std::vector<int> key, double exact, bool have, double approx, double noise)
   {
      expectkeys.insert(key);
      if( !std::isfinite(exact) || !std::isfinite(approx) )
         return;
      double den = std::max(std::fabs(approx), tol), rel = std::fabs(approx - exact) / den;
      auto it = L.find(key);
      bool printed = it != L.end(), flagged = printed && it->second.flag;
      std::string ks;
      for( int q : key )
         ks += pbt::fmt("%d ", q);
      double sl = noise / den + 1e-3 * rel;
      if( rel > tol + sl )
      {
         nwrong++;
         PBT_CHECK(c, flagged, "missed", "entry %s: user value %.17g, finite difference %.17g, relative error %g > %g, not flagged", ks.c_str(), exact, approx, rel, tol);
      }
      else if( rel < tol - sl )
         PBT_CHECK(c, !flagged, "false", "entry %s: user value %.17g, finite difference %.17g, relative error %g < %g, but flagged", ks.c_str(), exact, approx, rel, tol);
      else
         nunsure++;
      if( all )
         PBT_CHECK(c, printed, "printall", "entry %s not printed with derivative_test_print_all", ks.c_str());
      if( printed )
      {
         PBT_CHECK(c, all || flagged, "printed", "entry %s printed without being wrong", ks.c_str());
         PBT_CHECK(c, std::fabs(it->second.exact - exact) <= 1e-12 * (1 + std::fabs(exact)), "value", "entry %s printed with user value %.17g instead of %.17g", ks.c_str(), it->second.exact, exact);
         PBT_CHECK(c, std::fabs(it->second.approx - approx) <= 1e-12 * std::fabs(approx) + noise, "value", "entry %s printed with estimate %.17g instead of %.17g", ks.c_str(), it->second.approx, approx);
         PBT_CHECK(c, std::fabs(it->second.rel - rel) <= 2e-3 * rel + sl, "value", "entry %s printed with relative error %g instead of %g", ks.c_str(), it->second.rel, rel);
         if( key[0] != 0 )
            PBT_CHECK(c, it->second.v == have, "structure", "entry %s printed %s structure mark", ks.c_str(), have ? "without" : "with");
      }
   };
   if( mode != 2 )
      for( int i = std::max(0, first); i < n; ++i )
      {
         Vec y = x;
         double h = pert * std::max(1., std::fabs(x[i]));
         y[i] = x[i] + h;
         judge({0, i + oc}, G[i], true, (a.p.f.val(y.data()) - f0) / h, 0);
         Vec gp = a.p.geval(y.data());
         for( int j = 0; j < m; ++j )
            judge({1, j + oc, i + oc}, J[j * n + i], jh[j * n + i], (gp[j] - g0[j]) / h, 0);
      }
   if( mode != 0 )
      for( int q = std::max(-1, first); q < m; ++q )
      {
         Vec T((size_t)n * n, 0.), H((size_t)n * n, 0.);
         std::vector<char> hh((size_t)n * n, 0);
         if( q < 0 )
            a.p.f.hess(x.data(), T.data(), n, 1.5);
         else
            a.p.g[q].hess(x.data(), T.data(), n, 1.5);
         for( size_t k = 0; k < a.pres.hess.size(); ++k )
         {
            auto& e = a.pres.hess[k];
            double v = e.w == 0 ? 0. : e.w * T[e.r * n + e.c];
            for( auto& d : t->dh )
               if( d.k == (int)k && d.which == q )
                  v += 1.5 * d.d;
            H[e.r * n + e.c] += v;
            hh[e.r * n + e.c] = 1;
            if( e.r != e.c )
            {
               H[e.c * n + e.r] += v;
               hh[e.c * n + e.r] = 1;
            }
         }
         for( int i = 0; i < n; ++i )
         {
            Vec y = x;
            double h = pert * std::max(1., std::fabs(x[i]));
            y[i] = x[i] + h;
            Vec gr = q < 0 ? G : Vec(J.begin() + q * n, J.begin() + (q + 1) * n), gp;
            if( q < 0 )
               gp = grad(y);
            else
            {
               Vec jp = jac(y, nullptr);
               gp.assign(jp.begin() + q * n, jp.begin() + (q + 1) * n);
            }
            for( int k = 0; k < n; ++k )
               judge({2, q < 0 ? -1 : q + oc, i + oc, k + oc}, H[i * n + k], hh[i * n + k], 1.5 * (gp[k] - gr[k]) / h, 4e-16 * (std::fabs(gr[k]) + std::fabs(gp[k])) / h);
         }
      }
   for( auto& q : L )
   {
      nflag += q.second.flag;
      PBT_CHECK(c, expectkeys.count(q.first), "unknown", "an entry that does not exist was reported (type %d, index %d)", q.first[0], q.first[1]);
   }
   if( nflag )
      PBT_CHECK(c, count == nflag, "count", "%d errors counted, %d entries flagged", count, nflag);
   else
      PBT_CHECK(c, count <= 0, "count", "%d errors counted, no entry flagged", count);
   PBT_CHECK(c, !(noerr && nflag), "count", "\"No errors detected\" with flagged entries");
   c.nontrivial = nwrong > 0 || !note.empty();
   c.label(nwrong ? "wrong entries" : "all correct");
   if( nunsure )
      c.label("borderline");
   // the outcome of the solve is not affected
   compare(c, "solve", 0, *t, *u, false);
}

int main(int argc, char** argv)
{
   pbt::Check k = {"P17", "derivatives or structure were falsified", {{"checker", checker, 5000, 250000}}};
   return pbt::run_main(argc, argv, k);
}
