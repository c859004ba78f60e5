// P47: the filter as a set of pairs against a model, and every step of a solve against an independent filter line search model.
#include "optgen.hpp"
#include "nlp.hpp"
#include "IpFilter.hpp"
#include "IpPiecewisePenalty.hpp"
#include "IpCompoundVector.hpp"
#include "IpDenseVector.hpp"
#include "IpJournalist.hpp"
#include <algorithm>
#include <cstring>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

// ---------------------------------------------------------------- the filter
struct MemJournal: public Journal
{
   std::string s;
   MemJournal() : Journal("mem", J_ALL) { }
   void PrintImpl(EJournalCategory, EJournalLevel, const char* str) override { s += str; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) override
   {
      char b[4096];
      vsnprintf(b, sizeof b, f, ap);
      s += b;
   }
   void FlushBufferImpl() override { }
};
static double coord(Ctx& c)
{
   switch( c.src.weighted({6, 2, 1}) )
   {
      case 0: return c.src.integer(-3, 3);
      case 1: return c.src.nice(-10, 10);
      default: return c.src.logreal(1e-20, 1e20) * (c.src.flip() ? 1 : -1);
   }
}
static void f_filter(Ctx& c)
{
   int dim = c.src.weighted({1, 6, 2, 1}) + 1;
   Filter f(dim);
   std::vector<std::pair<Vec, int> > model;
   int nops = c.src.integer(1, 40), accepted = 0, refused = 0, removed = 0;
   for( int k = 0; k < nops; ++k )
   {
      Vec v(dim);
      for( double& d : v )
         d = coord(c);
      if( !model.empty() && c.src.flip(0.3) )
      {
         // close to a stored entry
         v = model[c.src.below(model.size())].first;
         int i = c.src.below(dim);
         if( c.src.flip(0.7) )
            v[i] += (c.src.flip() ? 1 : -1) * (c.src.flip() ? 1 : 1e-3) * (1 + std::fabs(v[i]));
      }
      int op = c.src.weighted({18, 12, 1, 3});
      if( op == 0 )
      {
         bool exp = true;
         for( auto& e : model )
         {
            bool le = false;
            for( int i = 0; i < dim; ++i )
               le = le || v[i] <= e.first[i];
            exp = exp && le;
         }
         bool got = dim == 2 && c.src.flip() ? f.Acceptable(v[0], v[1]) : f.Acceptable(v);
         (exp ? accepted : refused)++;
         c.desc << (got ? "  accepts " : "  refuses ") << vs(v) << "\n";
         PBT_CHECK(c, got == exp, "acceptable", "%s %s although %s", got ? "accepts" : "refuses", vs(v).c_str(), exp ? "no entry dominates it" : "an entry dominates it");
      }
      else if( op == 1 )
      {
         c.desc << "  add " << vs(v) << "\n";
         size_t b = model.size();
         model.erase(std::remove_if(model.begin(), model.end(), [&](const std::pair<Vec, int>& e)
         {
            for( int i = 0; i < dim; ++i )
               if( v[i] > e.first[i] )
                  return false;
            return true;
         }), model.end());
         removed += b > model.size();
         model.push_back(std::make_pair(v, k));
         if( dim == 2 && c.src.flip() )
            f.AddEntry(v[0], v[1], k);
         else
            f.AddEntry(v, k);
      }
      else if( op == 2 )
      {
         c.desc << "  clear\n";
         f.Clear();
         model.clear();
      }
      else
      {
         SmartPtr<Journalist> j = new Journalist();
         MemJournal* m = new MemJournal();
         j->AddJournal(m);
         f.Print(*j);
         int n = -1;
         const char* q = std::strstr(m->s.c_str(), "has ");
         if( q )
            n = atoi(q + 4);
         PBT_CHECK(c, n == (int)model.size(), "size", "the filter prints %d entries, %d were expected", n, (int)model.size());
         // the entries themselves: numbers of the rows
         std::vector<std::pair<Vec, int> > got;
         std::string t = m->s;
         size_t pos = t.find('\n');
         while( pos != std::string::npos && pos + 1 < t.size() )
         {
            size_t e = t.find('\n', pos + 1);
            std::string line = t.substr(pos + 1, e == std::string::npos ? e : e - pos - 1);
            pos = e;
            if( line.find("phi") != std::string::npos )
               continue;
            const char* s = line.c_str();
            char* end;
            strtol(s, &end, 10);
            Vec r(dim);
            for( double& d : r )
               d = strtod(end, &end);
            int it = strtol(end, &end, 10);
            got.push_back(std::make_pair(r, it));
         }
         std::vector<std::pair<Vec, int> > want = model;
         std::sort(got.begin(), got.end());
         std::sort(want.begin(), want.end());
         PBT_CHECK(c, got == want, "entries", "the entries printed differ from those expected: %s", t.c_str());
      }
   }
   c.nontrivial = refused && removed && accepted;
   c.label(removed ? "entries removed" : "nothing removed");
}

// ---------------------------------------------------------------- steps of a solve
static void flat(const Vector& v, Vec& out)
{
   const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v);
   if( cv )
   {
      for( Index i = 0; i < cv->NComps(); ++i )
         flat(*cv->GetComp(i), out);
      return;
   }
   const DenseVector& d = dynamic_cast<const DenseVector&>(v);
   for( Index i = 0; i < d.Dim(); ++i )
      out.push_back(d.IsHomogeneous() ? d.Scalar() : d.Values()[i]);
}
static void flat2(SmartPtr<const Vector> a, SmartPtr<const Vector> b, Vec& out)
{
   flat(*a, out);
   flat(*b, out);
}
struct Pt
{
   bool any = false, resto = false;
   double f = 0, B = 0;     // barrier objective at mu is f + mu * B
   double th = 0;
   Vec v, gf, gB;           // (x,s) and the gradients of both parts
   double mu = 0;
   int iter = 0;
   double minslack = 1e300, err = 0;
   double phi(double m) const { return f + m * B; }
   double mag(double m) const { return std::fabs(f) + m * std::fabs(B) + 1; }
};
struct Par
{
   double gphi, gth, delta, sphi, sth, eta, thmax, thmin, incr, red;
   int norm, resets, trigger;
   bool monotone;
   double mumin;
};
struct LS
{
   Ctx* c;
   const Problem* p;
   Par q;
   bool trials = false;     // rejected trial points can be recomputed
   Pt prev;
   std::vector<std::pair<double, double> > sure, maybe;
   double tmax = -1, tmin = -1;
   double mu_prev = -1;
   bool in_soft = false;
   int nf = 0, nh = 0, nrej = 0, nfilt = 0, nresto = 0, nS = 0, nclear = 0, nfrej = 0;
   bool after_resto = false, after_other = false;
   Pt before_resto;
   void add(const Pt& a, double mu) { sure.push_back(std::make_pair(a.phi(mu) - q.gphi * a.th, (1 - q.gth) * a.th)); ++nfilt; }
   void muchange(double mu)
   {
      // with an adaptive strategy the filter is cleared in every iteration of the free mode
   if( mu_prev >= 0 && (mu != mu_prev || !q.monotone) )
      {
         if( !q.monotone || mu > q.mumin )
         {
            sure.clear();
            maybe.clear();
         }
         else
         {
            maybe.insert(maybe.end(), sure.begin(), sure.end());
            sure.clear();
         }
         ++nclear;
      }
      mu_prev = mu;
   }
   // the filter reset heuristic
   void reset(const std::string& info)
   {
      if( info.find("F+") == std::string::npos )
         return;
      maybe.insert(maybe.end(), sure.begin(), sure.end());
      sure.clear();
   }
   // is the pair clearly dominated by an entry that is certainly stored
   bool dominated(double phi, double th, double tol)
   {
      for( auto& e : sure )
         if( phi > e.first + tol && th > e.second + 1e-9 * (1e-8 + std::fabs(e.second)) )
            return true;
      return false;
   }
   bool clearly_ok(double phi, double th, double tol)
   {
      for( int k = 0; k < 2; ++k )
         for( auto& e : k ? maybe : sure )
            if( !(phi <= e.first - tol || th <= e.second - 1e-9 * (1e-8 + std::fabs(e.second))) )
               return false;
      return true;
   }
   void step(const Pt& t, const IterInfo& in, char ch, const std::string& info);
   void report(const IterInfo& in, const IpoptData* d, IpoptCalculatedQuantities* cq);
};
static double thnorm(const Vec& v, int norm)
{
   double r = 0;
   for( double d : v )
      r = norm == 0 ? r + std::fabs(d) : norm == 1 ? r + d * d : std::max(r, std::fabs(d));
   return norm == 1 ? std::sqrt(r) : r;
}
static double amp(const Func& f, const double* x)
{
   double r = std::fabs(f.c0);
   for( auto& q : f.t )
   {
      Func one;
      one.t.push_back(q);
      r += std::fabs(one.val(x));
   }
   return r;
}
void LS::step(const Pt& t, const IterInfo& in, char ch, const std::string& info)
{
   Ctx& c = *this->c;
   const Pt& r = prev;
   double mu = t.mu;
   muchange(mu);
   double tol = 1e-10 * (r.mag(mu) + t.mag(mu)) + mu * (r.err + t.err);
   double ph0 = r.phi(mu), ph1 = t.phi(mu), th0 = r.th, th1 = t.th;
   bool lower = ch == 'f' || ch == 'h', upper = ch == 'F' || ch == 'H';
   char buf[300];
   if( !(lower || upper || ch == 'S' || ch == 's') )
   {
      after_other = true;
      return;
   }
   if( ch == 's' || ch == 'S' )
   {
      after_other = true;
      if( !in_soft )
         add(r, mu);
      in_soft = ch == 's';
      ++nS;
      if( ch == 's' )
         return;
   }
   else
      in_soft = false;
   // both are fixed in the first line search; unknown if that did not lead to an accepted step
   if( tmax < 0 && after_other )
      tmax = 1e300, tmin = -2;
   if( tmax < 0 )
      tmax = q.thmax * std::max(1., th0);
   if( tmin == -1 )
      tmin = q.thmin * std::max(1., th0);
   snprintf(buf, sizeof buf, "iteration %d ('%c', mu %g): phi %.15g -> %.15g, theta %.15g -> %.15g", in.iter, ch, mu, ph0, ph1, th0, th1);
   PBT_CHECK(c, th1 <= tmax * (1 + 1e-9), "thetamax", "%s although theta_max is %g", buf, tmax);
   // directional derivative over the whole step
   double gd = 0, ga = 0;
   for( size_t i = 0; i < r.v.size(); ++i )
   {
      double g = r.gf[i] + mu * r.gB[i], s = t.v[i] - r.v[i];
      gd += g * s;
      ga += 1e-9 * (std::fabs(g * s) + std::fabs(mu * r.gB[i] * s)) + 1e-15 * std::fabs(r.gf[i]) / r.mu * mu * std::fabs(s) + 1e-14 * std::fabs(g) * (std::fabs(r.v[i]) + std::fabs(t.v[i]));
   }
   double gt = ga + 1e-13;
   double al = in.alpha_pr;
   bool armijo_no = lower && ph1 - ph0 > q.eta * gd + q.eta * gt + tol;     // certainly violated
   bool suff = th1 <= (1 - q.gth) * th0 + 1e-9 * th0 || ph1 - ph0 <= -q.gphi * th0 + tol;
   bool ft_yes = false, ft_no = false;
   if( lower && al > 0 )
   {
      // switching condition for the direction d = step / alpha
      double lo = (-gd - gt) / al, hi = (-gd + gt) / al, rhs = q.delta * std::pow(th0, q.sth);
      ft_yes = lo > 0 && al * std::pow(lo, q.sphi) > rhs * (1 + 1e-6) + 1e-300;
      ft_no = hi < 0 || al * std::pow(std::max(hi, 0.), q.sphi) <= rhs * (1 - 1e-6);
      if( th0 == 0. )
         ft_no = false;
   }
   if( ch == 'f' )
   {
      ++nf;
      PBT_CHECK(c, !ft_no, "switching", "%s: counted as an f-type step, but the switching condition fails (slope %g, alpha %g)", buf, gd / al, al);
      PBT_CHECK(c, !armijo_no, "armijo", "%s: counted as an f-type step, but the Armijo condition fails (slope times step %g)", buf, gd);
      PBT_CHECK(c, suff || tmin < 0 || th0 <= tmin * (1 + 1e-9), "sufficient", "%s: neither sufficient decrease nor below theta_min %g", buf, tmin);
   }
   else
   {
      ++nh;
      if( !(ch == 'F') )
         PBT_CHECK(c, suff, "sufficient", "%s: no sufficient decrease of either measure", buf);
      if( ch == 'h' )
      {
         bool armijo_yes = ph1 - ph0 < q.eta * gd - q.eta * gt - tol;
         PBT_CHECK(c, !(ft_yes && armijo_yes), "h-type", "%s: switching and Armijo condition hold, but the step is counted as an h-type step (slope %g alpha %g)", buf, gd / al, al);
         PBT_CHECK(c, !(ft_yes && th0 < tmin * (1 - 1e-9)), "h-type", "%s: f-type step taken without Armijo condition (theta_min %g)", buf, tmin);
      }
      if( ch != 'F' && ph1 > ph0 + tol )
      {
         double bas = std::fabs(ph0) > 10 ? std::log10(std::fabs(ph0)) : 1;
         PBT_CHECK(c, std::log10(ph1 - ph0) <= q.incr + bas + 1e-6, "obj_max_inc", "%s: the barrier objective increases by more than obj_max_inc %g allows", buf, q.incr);
      }
   }
   PBT_CHECK(c, !dominated(ph1, th1, tol), "filter", "%s: dominated by one of %d filter entries of this barrier problem", buf, (int)sure.size());
   // the trial points refused before must not have been acceptable
   if( lower && trials && in.ls > 1 && al > 1e-5 && maxabs(t.v) < 1e4 && maxabs(r.v) < 1e4 && r.minslack > 1e-8 && t.minslack > 1e-8 && info.find("F+") == std::string::npos )
   {
      for( int l = 0; l < in.ls - 1; ++l )
      {
         double a = al / std::pow(q.red, in.ls - 1 - l);
         if( a > 1.0000001 )
            break;
         Vec x(p->n), gv;
         double B = 0, ms = 1e300;
         for( int i = 0; i < p->n; ++i )
         {
            double d = (t.v[i] - r.v[i]) / al;
            x[i] = r.v[i] + a * d;
            bool L = p->xl[i] > -1e19, U = p->xu[i] < 1e19;
            if( L )
            {
               B -= std::log(x[i] - p->xl[i]);
               ms = std::min(ms, x[i] - p->xl[i]);
            }
            if( U )
            {
               B -= std::log(p->xu[i] - x[i]);
               ms = std::min(ms, p->xu[i] - x[i]);
            }
            if( L && !U )
               B += 1e-5 * (x[i] - p->xl[i]);
            if( U && !L )
               B += 1e-5 * (p->xu[i] - x[i]);
         }
         if( !(ms > 1e-8) )
            continue;
         double f = p->f.val(x.data());
         gv = p->geval(x.data());
         for( int j = 0; j < p->m; ++j )
            gv[j] -= p->gl[j];
         double am = amp(p->f, x.data());
         for( auto& w : p->g )
            am = std::max(am, amp(w, x.data()));
         if( !(am < 1e6) )
            continue;       // rounding errors
         double th = thnorm(gv, q.norm), ph = f + mu * B;
         double wt = 1e-6 * (std::fabs(f) + mu * std::fabs(B) + r.mag(mu)), wth = 1e-6 * (1 + th + th0);
         if( !(std::fabs(ph) < 1e8) || !(th < 1e8) || maxabs(x) > 1e4 )
            continue;
         ++nrej;
         double g0 = gd / al, gt0 = gt / al;
         bool fy = false, fn = false;
         double lo = -g0 - gt0, hi = -g0 + gt0, rhs = q.delta * std::pow(th0, q.sth);
         fy = lo > 0 && a * std::pow(lo, q.sphi) > rhs * (1 + 1e-6) + 1e-300;
         fn = hi < 0 || a * std::pow(std::max(hi, 0.), q.sphi) <= rhs * (1 - 1e-6);
         bool below = tmin >= 0 && th0 < tmin * (1 - 1e-9), above = tmin >= 0 && th0 > tmin * (1 + 1e-9);
         bool ok;
         if( fy && below )
            ok = ph - ph0 < q.eta * a * g0 - wt;
         else if( fn || above )
         {
            ok = th < (1 - q.gth) * th0 - wth || ph - ph0 < -q.gphi * th0 - wt;
            double bas = std::fabs(ph0) > 10 ? std::log10(std::fabs(ph0)) : 1;
            if( ph > ph0 - wt && std::log10(ph - ph0 + 2 * wt) > q.incr + bas - 1e-6 )
               ok = false;
         }
         else
            continue;
         ok = ok && tmin >= 0 && th < tmax * (1 - 1e-6) - wth;
         if( ok )
         {
            // in the filter with a margin
            bool in_f = true;
            for( int k = 0; k < 2; ++k )
               for( auto& e : k ? maybe : sure )
                  if( !(ph < e.first - wt || th < e.second - wth) )
                     in_f = false;
            if( !in_f )
               ++nfrej;
            ok = in_f;
         }
         PBT_CHECK(c, !ok, "refused", "%s with alpha %g: trial step %g with phi %.15g and theta %.15g was refused although acceptable", buf, al, a, ph, th);
      }
   }
   reset(info);
   if( ch == 'h' || ch == 'H' )
      add(r, mu);
}
void LS::report(const IterInfo& in, const IpoptData* d, IpoptCalculatedQuantities* cq)
{
   if( in.mode == RestorationPhaseMode )
   {
      after_other = true;
      if( !after_resto && prev.any )
      {
         before_resto = prev;
         after_resto = true;
         ++nresto;
      }
      reset(d->info_string());
      return;
   }
   Pt t;
   t.any = true;
   t.iter = in.iter;
   t.mu = d->curr_mu();
   t.f = cq->curr_f();
   double b = cq->curr_barrier_obj();
   t.B = (b - t.f) / t.mu;
   t.err = 1e-15 * (std::fabs(b) + std::fabs(t.f)) / t.mu;   // rounding error of B
   t.th = cq->curr_constraint_violation();
   flat2(d->curr()->x(), d->curr()->s(), t.v);
   flat(*cq->curr_grad_f(), t.gf);
   t.gf.resize(t.v.size(), 0.);
   flat2(cq->curr_grad_barrier_obj_x(), cq->curr_grad_barrier_obj_s(), t.gB);
   for( size_t i = 0; i < t.v.size(); ++i )
      t.gB[i] = (t.gB[i] - t.gf[i]) / t.mu;
   Vec sl;
   flat2(cq->curr_slack_x_L(), cq->curr_slack_x_U(), sl);
   flat2(cq->curr_slack_s_L(), cq->curr_slack_s_U(), sl);
   for( double s : sl )
      t.minslack = std::min(t.minslack, s);
   Ctx& c = *this->c;
   // entries of points with huge values are not modelled
   bool usable = maxabs(t.v) < 1e8 && std::fabs(t.f) < 1e10 && std::isfinite(t.B) && std::isfinite(t.f) && t.mu > 0;
   if( !usable )
      trials = false, after_other = true;
   if( after_resto )
   {
      if( before_resto.any && usable )
      {
         muchange(t.mu);
         if( !in_soft )
            add(before_resto, t.mu);
         double mu = t.mu, tol = 1e-9 * (before_resto.mag(mu) + t.mag(mu));
         PBT_CHECK(c, t.th < 1e-6 || !dominated(t.phi(mu), t.th, tol), "resto", "iteration %d: the point found by the restoration phase (phi %.15g theta %.15g) is dominated by one of %d filter entries (it was entered at phi %.15g theta %.15g)", in.iter, t.phi(mu), t.th, (int)sure.size(), before_resto.phi(mu), before_resto.th);
      }
      after_resto = false;
      in_soft = false;
   }
   else if( prev.any && usable && in.iter == prev.iter + 1 )
      step(t, in, d->info_alpha_primal_char(), d->info_string());
   else
   {
      muchange(t.mu);
      reset(d->info_string());
   }
   prev = t;
   prev.any = usable;
}
static void f_solve(Ctx& c)
{
   GenCfg g;
   g.nmax = 6;
   g.bigscale = c.src.flip(0.2) ? 0.2 : 0;
   bool eq = c.src.flip();
   if( eq )
      g.inequalities = false;
   Problem p = c.src.flip(0.15) ? gen_convex(c, g) : c.src.flip(0.15) ? gen_infeasible(c, g) : gen_general(c, g);
   for( int i = 0; i < p.n; ++i )
      if( c.src.flip(0.4) && p.x0[i] != 0 )
         p.x0[i] *= c.src.nice(1, 8);
   bool onlyeq = true, fixed = false;
   for( int j = 0; j < p.m; ++j )
      onlyeq = onlyeq && p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i )
      fixed = fixed || p.fixed(i);
   Opts o = base_opts();
   o.I("watchdog_shortened_iter_trigger", 0).I("max_iter", 150).N("slack_move", 0).N("bound_relax_factor", 0.).I("print_level", 0);
   Par q;
   q.gphi = 1e-8, q.gth = 1e-5, q.delta = 1, q.sphi = 2.3, q.sth = 1.1, q.eta = 1e-8, q.thmax = 1e4, q.thmin = 1e-4, q.incr = 5, q.red = 0.5, q.norm = 0, q.resets = 5, q.trigger = 5;
   auto num = [&](const char* n, double& v, double pr, double a, double b) { if( c.src.flip(pr) ) { v = c.src.flip(0.4) ? c.src.real(a, b) : a * std::pow(b / a, c.src.real(0, 1)); o.N(n, v); } };
   num("gamma_phi", q.gphi, 0.5, 1e-6, 0.5);
   num("gamma_theta", q.gth, 0.5, 1e-6, 0.5);
   num("delta", q.delta, 0.4, 1e-3, 100);
   num("s_phi", q.sphi, 0.3, 1.1, 3);
   num("s_theta", q.sth, 0.3, 1.05, 3);
   num("eta_phi", q.eta, 0.5, 1e-6, 0.45);
   num("theta_max_fact", q.thmax, 0.3, 1.0, 10.);
   num("theta_min_fact", q.thmin, 0.4, 1e-3, 0.99);
   if( q.thmin >= q.thmax )
      q.thmax = 1e4, o.N("theta_max_fact", 1e4);
   num("obj_max_inc", q.incr, 0.3, 1.0001, 3);
   num("alpha_red_factor", q.red, 0.3, 0.2, 0.9);
   q.resets = 5;
   if( c.src.flip(0.5) )
      o.I("max_filter_resets", q.resets = c.src.pick<int>({0, 0, 1, 2}));
   if( c.src.flip(0.4) )
      o.I("filter_reset_trigger", c.src.integer(1, 3));
   if( c.src.flip(0.4) )
      o.I("max_soc", c.src.pick<int>({0, 0, 2}));
   if( c.src.flip(0.3) )
   {
      q.norm = c.src.below(3);
      o.S("constraint_violation_norm_type", q.norm == 0 ? "1-norm" : q.norm == 1 ? "2-norm" : "max-norm");
   }
   q.monotone = !c.src.flip(0.15);
   o.S("mu_strategy", q.monotone ? "monotone" : "adaptive");
   if( c.src.flip(0.5) )
      o.N("mu_init", c.src.logreal(1e-4, 10));
   if( c.src.flip(0.3) )
      o.N("barrier_tol_factor", c.src.logreal(1e-2, 10));
   bool none = c.src.flip(0.7);
   if( none )
      o.S("nlp_scaling_method", "none");
   if( c.src.flip(0.15) )
      o.S("hessian_approximation", "limited-memory").S("mu_strategy", q.monotone ? "monotone" : "adaptive");
   if( c.src.flip(0.3) )
      o.S("fast_step_computation", "no").N("soft_resto_pderror_reduction_factor", c.src.pick<double>({0, 0.9}));
   if( c.src.flip(0.2) )
      o.S("alpha_for_y", "full");
   double tolv = 1e-8;
   if( c.src.flip(0.2) )
      o.N("tol", tolv = 1e-5);
   q.mumin = std::min(tolv, 1e-4) / (10. + 1.) * 1.000001;
   { // barrier_tol_factor changes the smallest value
      double k = o.num("barrier_tol_factor", 10.);
      q.mumin = std::max(q.mumin, std::min(tolv, 1e-4) / (k + 1.) * 1.000001);
   }
   LS m;
   m.c = &c;
   m.p = &p;
   m.q = q;
   m.trials = q.monotone && none && onlyeq && !fixed;
   SmartPtr<RecTNLP> t = new RecTNLP(p, plain_pres(p));
   t->on_iter = [&](RecTNLP&, const IterInfo& in, const IpoptData* d, IpoptCalculatedQuantities* cq) { m.report(in, d, cq); return true; };
   c.desc << p.show() << o.show() << "\n";
   Outcome r = solve(GetRawPtr(t), o);
   c.desc << " -> " << statname(r.app) << ", " << m.nf << " f-type " << m.nh << " h-type " << m.nS << " soft steps, " << m.nresto << " restorations, " << m.nrej << " refused trial points examined, " << m.nfrej << " because of the filter\n";
   c.label(statname(r.app));
   if( m.nrej )
      c.label("refused trial points examined");
   if( m.nfrej )
      c.label("refused because of the filter");
   if( m.nresto )
      c.label("restoration phase");
   if( m.nS )
      c.label("soft restoration");
   if( m.nf )
      c.label("f-type steps");
   c.nontrivial = m.nf + m.nh > 1 && m.nfilt > 0;
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P47", "filter: points accepted, points refused and entries removed; solve: more than one step of the filter line search and a filter entry",
      {{"filter", f_filter, 200000, 8000000}, {"solve", f_solve, 10000, 600000}}
   };
   return pbt::run_main(argc, argv, ck);
}
