// P48: derived quantities always belong to the current point.
#include "anycase.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpOrigIpoptNLP.hpp"
#include "IpRestoIpoptNLP.hpp"
#include "IpAlgBuilder.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include <limits>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void flat(const Vector& v, Vec& o)
{
   if( const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v) )
   {
      for( Index i = 0; i < cv->NComps(); ++i )
         flat(*cv->GetComp(i), o);
      return;
   }
   const DenseVector& d = dynamic_cast<const DenseVector&>(v);
   if( d.Dim() )
      o.insert(o.end(), d.ExpandedValues(), d.ExpandedValues() + d.Dim());
}
static Vec flat(const Vector& v) { Vec o; flat(v, o); return o; }
static void setflat(Vector& v, const double*& p)
{
   if( CompoundVector* cv = dynamic_cast<CompoundVector*>(&v) )
   {
      for( Index i = 0; i < cv->NComps(); ++i )
         setflat(*cv->GetCompNonConst(i), p);
      return;
   }
   DenseVector& d = dynamic_cast<DenseVector&>(v);
   double* w = d.Values();
   for( Index i = 0; i < d.Dim(); ++i )
      w[i] = *p++;
}
static SmartPtr<Vector> mk(const Vector& proto, const Vec& val)
{
   SmartPtr<Vector> v = proto.MakeNew();
   const double* p = val.data();
   setflat(*v, p);
   return v;
}

// the functions and bounds in the algorithm's space
struct Ref
{
   int nx = 0, nc = 0, nd = 0;
   Vec xl, xu, dl, du;                          // full, +-INF
   std::vector<int> xL, xU, dL, dU;             // indices of bounded components
   std::function<double(const Vec&, double)> f;
   std::function<Vec(const Vec&, double)> gf;
   std::function<Vec(const Vec&)> c, d;
   std::function<std::vector<Vec>(const Vec&)> jc, jd;
   std::function<std::vector<Vec>(const Vec&, const Vec&, const Vec&, double)> h, hc;   // hc: constraints only
   double df = 1;
   Vec dx, dc, dd;                              // scaling factors
   Vec oxl, oxu;                                // user's bounds in the user's units
   double kappa_d = 1e-5, s_max = 100, mu_target = 0;
   ENormType cvn = NORM_1;
   void idx()
   {
      for( int i = 0; i < nx; ++i )
      {
         if( xl[i] > -1e19 ) xL.push_back(i);
         if( xu[i] < 1e19 ) xU.push_back(i);
      }
      for( int i = 0; i < nd; ++i )
      {
         if( dl[i] > -1e19 ) dL.push_back(i);
         if( du[i] < 1e19 ) dU.push_back(i);
      }
   }
};
enum { X, S, YC, YD, ZL, ZU, VL, VU };
struct Pt { Vec v[8]; };

static double norm(ENormType t, const std::vector<Vec>& a)
{
   double r = 0;
   for( auto& v : a )
      for( double e : v )
         r = t == NORM_1 ? r + std::fabs(e) : t == NORM_2 ? r + e * e : std::max(r, std::fabs(e));
   return t == NORM_2 ? std::sqrt(r) : r;
}
static Vec matT(const std::vector<Vec>& J, const Vec& y, int n)
{
   Vec r(n, 0.);
   for( size_t i = 0; i < J.size(); ++i )
      for( int j = 0; j < n; ++j )
         r[j] += J[i][j] * y[i];
   return r;
}
static Vec mat(const std::vector<Vec>& J, const Vec& x)
{
   Vec r(J.size(), 0.);
   for( size_t i = 0; i < J.size(); ++i )
      for( size_t j = 0; j < x.size(); ++j )
         r[i] += J[i][j] * x[j];
   return r;
}
static Vec sub(const Vec& a, const Vec& b) { Vec r(a); for( size_t i = 0; i < r.size(); ++i ) r[i] -= b[i]; return r; }
static Vec add(const Vec& a, const Vec& b) { Vec r(a); for( size_t i = 0; i < r.size(); ++i ) r[i] += b[i]; return r; }
static Vec mul(const Vec& a, const Vec& b) { Vec r(a); for( size_t i = 0; i < r.size(); ++i ) r[i] *= b[i]; return r; }
static Vec div_(const Vec& a, const Vec& b) { Vec r(a); for( size_t i = 0; i < r.size(); ++i ) r[i] /= b[i]; return r; }
static Vec adds(const Vec& a, double b) { Vec r(a); for( double& e : r ) e += b; return r; }
static Vec scal(const Vec& a, double b) { Vec r(a); for( double& e : r ) e *= b; return r; }
static double dot(const Vec& a, const Vec& b) { double r = 0; for( size_t i = 0; i < a.size(); ++i ) r += a[i] * b[i]; return r; }
static double sum1(const Vec& a) { double r = 0; for( double e : a ) r += std::fabs(e); return r; }

struct RefQ      // everything from scratch at one point
{
   const Ref& R;
   const Pt& P;
   double mu;
   RefQ(const Ref& r, const Pt& p, double m) : R(r), P(p), mu(m) { }
   Vec slxl() const { Vec r; for( int i : R.xL ) r.push_back(P.v[X][i] - R.xl[i]); return r; }
   Vec slxu() const { Vec r; for( int i : R.xU ) r.push_back(R.xu[i] - P.v[X][i]); return r; }
   Vec slsl() const { Vec r; for( int i : R.dL ) r.push_back(P.v[S][i] - R.dl[i]); return r; }
   Vec slsu() const { Vec r; for( int i : R.dU ) r.push_back(R.du[i] - P.v[S][i]); return r; }
   double f() const { return R.f(P.v[X], mu); }
   Vec gf() const { return R.gf(P.v[X], mu); }
   Vec c() const { return R.c(P.v[X]); }
   Vec d() const { return R.d(P.v[X]); }
   Vec dms() const { return sub(d(), P.v[S]); }
   Vec jcy() const { return matT(R.jc(P.v[X]), P.v[YC], R.nx); }
   Vec jdy() const { return matT(R.jd(P.v[X]), P.v[YD], R.nx); }
   // damping: variables with exactly one bound
   Vec dampx() const
   {
      Vec r(R.nx, 0.);
      for( int i : R.xL ) r[i] += 1;
      for( int i : R.xU ) r[i] -= 1;
      return scal(r, R.kappa_d);
   }
   Vec damps() const
   {
      Vec r(R.nd, 0.);
      for( int i : R.dL ) r[i] += 1;
      for( int i : R.dU ) r[i] -= 1;
      return scal(r, R.kappa_d);
   }
   double barrier() const
   {
      double r = f();
      for( const Vec& v : {slxl(), slxu(), slsl(), slsu()} )
         for( double e : v )
            r -= mu * std::log(e);
      for( int i : R.xL ) if( R.xu[i] >= 1e19 ) r += R.kappa_d * mu * (P.v[X][i] - R.xl[i]);
      for( int i : R.xU ) if( R.xl[i] <= -1e19 ) r += R.kappa_d * mu * (R.xu[i] - P.v[X][i]);
      for( int i : R.dL ) if( R.du[i] >= 1e19 ) r += R.kappa_d * mu * (P.v[S][i] - R.dl[i]);
      for( int i : R.dU ) if( R.dl[i] <= -1e19 ) r += R.kappa_d * mu * (R.du[i] - P.v[S][i]);
      return r;
   }
   Vec gbx() const
   {
      Vec r = add(gf(), scal(dampx(), mu));
      for( int i : R.xL ) r[i] -= mu / (P.v[X][i] - R.xl[i]);
      for( int i : R.xU ) r[i] += mu / (R.xu[i] - P.v[X][i]);
      return r;
   }
   Vec gbs() const
   {
      Vec r = scal(damps(), mu);
      for( int i : R.dL ) r[i] -= mu / (P.v[S][i] - R.dl[i]);
      for( int i : R.dU ) r[i] += mu / (R.du[i] - P.v[S][i]);
      return r;
   }
   Vec glx() const
   {
      Vec r = add(gf(), add(jcy(), jdy()));
      for( size_t k = 0; k < R.xL.size(); ++k ) r[R.xL[k]] -= P.v[ZL][k];
      for( size_t k = 0; k < R.xU.size(); ++k ) r[R.xU[k]] += P.v[ZU][k];
      return r;
   }
   Vec gls() const
   {
      Vec r = scal(P.v[YD], -1.);
      for( size_t k = 0; k < R.dL.size(); ++k ) r[R.dL[k]] -= P.v[VL][k];
      for( size_t k = 0; k < R.dU.size(); ++k ) r[R.dU[k]] += P.v[VU][k];
      return r;
   }
   std::vector<Vec> compl_() const { return {mul(slxl(), P.v[ZL]), mul(slxu(), P.v[ZU]), mul(slsl(), P.v[VL]), mul(slsu(), P.v[VU])}; }
   std::vector<Vec> rcompl(double m) const { auto r = compl_(); for( auto& v : r ) v = adds(v, -m); return r; }
   int ncompl() const { return (int)(R.xL.size() + R.xU.size() + R.dL.size() + R.dU.size()); }
   // violation of the constraints (not using s)
   double nlpviol(ENormType t, bool unscaled) const
   {
      Vec cc = c(), dd = d(), a, b;
      if( unscaled ) cc = div_(cc, R.dc);
      for( int i : R.dL ) a.push_back(std::max(0., R.dl[i] - dd[i]) / (unscaled ? std::fabs(R.dd[i]) : 1.));
      for( int i : R.dU ) b.push_back(std::max(0., dd[i] - R.du[i]) / (unscaled ? std::fabs(R.dd[i]) : 1.));
      return norm(t, {cc, a, b});
   }
   double primal(ENormType t) const { return norm(t, {c(), dms()}); }
   double dual(ENormType t) const { return norm(t, {glx(), gls()}); }
   double udual(ENormType t) const { return norm(t, {scal(mul(glx(), R.dx), 1 / R.df), scal(mul(gls(), R.dd), 1 / R.df)}); }
   double cmpl(double m, ENormType t) const { return norm(t, rcompl(m)); }
   void sdc(double& sd, double& sc) const
   {
      double z = sum1(P.v[ZL]) + sum1(P.v[ZU]) + sum1(P.v[VL]) + sum1(P.v[VU]), y = sum1(P.v[YC]) + sum1(P.v[YD]);
      int nz = ncompl(), ny = R.nc + R.nd;
      sc = nz ? std::max(R.s_max, z / nz) / R.s_max : 1;
      sd = nz + ny ? std::max(R.s_max, (z + y) / (nz + ny)) / R.s_max : 1;
   }
   double nlperr() const
   {
      double sd, sc;
      sdc(sd, sc);
      return std::max(dual(NORM_MAX) / sd, std::max(nlpviol(NORM_MAX, false), cmpl(R.mu_target, NORM_MAX) / sc));
   }
   double unlperr() const { return std::max(udual(NORM_MAX), std::max(nlpviol(NORM_MAX, true), cmpl(R.mu_target, NORM_MAX) / std::fabs(R.df))); }
   double barerr() const
   {
      double sd, sc;
      sdc(sd, sc);
      return std::max(dual(NORM_MAX) / sd, std::max(primal(NORM_MAX), cmpl(mu, NORM_MAX) / sc));
   }
   double pderr(double m) const
   {
      int np = R.nc + R.nd, nz = ncompl();
      return dual(NORM_1) / (R.nx + R.nd) + (np ? primal(NORM_1) / np : 0) + (nz ? cmpl(m, NORM_1) / nz : 0);
   }
   double centr() const
   {
      if( !ncompl() ) return 0;
      double mn = 1e300, s = 0;
      for( auto& v : compl_() ) for( double e : v ) mn = std::min(mn, e), s += std::fabs(e);
      return std::min(1., mn / (s / ncompl()));
   }
   double avrg() const
   {
      if( !ncompl() ) return 0;
      double s = 0;
      for( auto& v : compl_() ) for( double e : v ) s += e;
      return s / ncompl();
   }
   static double ftb(const Vec& s, const Vec& d, double tau)
   {
      double a = 1;
      for( size_t i = 0; i < s.size(); ++i )
         if( d[i] < 0 )
            a = std::min(a, -tau * s[i] / d[i]);
      return a;
   }
   double pftb(double tau, const Vec& dx, const Vec& ds) const
   {
      Vec a, b, e, f_;
      for( int i : R.xL ) a.push_back(dx[i]);
      for( int i : R.xU ) b.push_back(-dx[i]);
      for( int i : R.dL ) e.push_back(ds[i]);
      for( int i : R.dU ) f_.push_back(-ds[i]);
      return std::min(std::min(ftb(slxl(), a, tau), ftb(slxu(), b, tau)), std::min(ftb(slsl(), e, tau), ftb(slsu(), f_, tau)));
   }
   double dftb(double tau, const Pt& D) const
   {
      return std::min(std::min(ftb(P.v[ZL], D.v[ZL], tau), ftb(P.v[ZU], D.v[ZU], tau)), std::min(ftb(P.v[VL], D.v[VL], tau), ftb(P.v[VU], D.v[VU], tau)));
   }
   Vec sigx() const
   {
      Vec r(R.nx, 0.), l = slxl(), u = slxu();
      for( size_t k = 0; k < R.xL.size(); ++k ) r[R.xL[k]] += P.v[ZL][k] / l[k];
      for( size_t k = 0; k < R.xU.size(); ++k ) r[R.xU[k]] += P.v[ZU][k] / u[k];
      return r;
   }
   Vec sigs() const
   {
      Vec r(R.nd, 0.), l = slsl(), u = slsu();
      for( size_t k = 0; k < R.dL.size(); ++k ) r[R.dL[k]] += P.v[VL][k] / l[k];
      for( size_t k = 0; k < R.dU.size(); ++k ) r[R.dU[k]] += P.v[VU][k] / u[k];
      return r;
   }
   Vec origL() const { Vec r; for( int i : R.xL ) r.push_back(std::max(0., R.oxl[i] - P.v[X][i] / R.dx[i])); return r; }
   Vec origU() const { Vec r; for( int i : R.xU ) r.push_back(std::max(0., P.v[X][i] / R.dx[i] - R.oxu[i])); return r; }
};

typedef IpoptCalculatedQuantities CQ;
struct Env
{
   Ctx* c;
   Ref R;
   SmartPtr<IpoptData> data;
   SmartPtr<CQ> cq;
   SmartPtr<IpoptNLP> inlp;
   Pt cur, tri, del;
   bool have_trial = false, have_tmul = false, have_delta = false;
   double mu = 0.1;
   ENormType nt = NORM_1;
   double par = 0.5;     // a scalar argument
   Vec a1, a2;           // vector arguments
   SmartPtr<Vector> v1, v2;
};
struct Query
{
   const char* name;
   int need;       // 0: current point, 1: trial primal, 2: all of trial, 3: delta
   std::function<Vec(Env&)> impl;
   std::function<Vec(Env&)> ref;
   int arg;        // 0 none, 1 vector like x, 2 vector like c, 3 vector like d
};
static Vec matflat(const Matrix& M, const Vector& xproto, const Vector& yproto)
{
   Vec r;
   int n = xproto.Dim(), m = yproto.Dim();
   std::vector<Vec> cols;
   for( int j = 0; j < n; ++j )
   {
      Vec e(n, 0.);
      e[j] = 1;
      SmartPtr<Vector> x = mk(xproto, e), y = yproto.MakeNew();
      y->Set(0.);
      M.MultVector(1., *x, 0., *y);
      cols.push_back(flat(*y));
   }
   for( int i = 0; i < m; ++i )
      for( int j = 0; j < n; ++j )
         r.push_back(cols[j][i]);
   return r;
}
static Vec rows(const std::vector<Vec>& J) { Vec r; for( auto& v : J ) r.insert(r.end(), v.begin(), v.end()); return r; }
#define Q0(nm, need, I, RR) v.push_back(Query{#nm, need, [](Env& e) -> Vec { return I; }, [](Env& e) -> Vec { RefQ q(e.R, need == 1 || need == 2 ? e.tri : e.cur, e.mu); (void)q; return RR; }, 0})
#define QV(nm, need, RR) Q0(nm, need, flat(*e.cq->nm()), RR)
#define QS(nm, need, RR) Q0(nm, need, Vec(1, e.cq->nm()), Vec(1, RR))
static std::vector<Query> queries()
{
   std::vector<Query> v;
   QV(curr_slack_x_L, 0, q.slxl()); QV(curr_slack_x_U, 0, q.slxu()); QV(curr_slack_s_L, 0, q.slsl()); QV(curr_slack_s_U, 0, q.slsu());
   QV(trial_slack_x_L, 1, q.slxl()); QV(trial_slack_x_U, 1, q.slxu()); QV(trial_slack_s_L, 1, q.slsl()); QV(trial_slack_s_U, 1, q.slsu());
   QS(curr_f, 0, q.f()); QS(unscaled_curr_f, 0, q.f() / e.R.df); QS(trial_f, 1, q.f()); QS(unscaled_trial_f, 1, q.f() / e.R.df);
   QV(curr_grad_f, 0, q.gf()); QV(trial_grad_f, 1, q.gf());
   QS(curr_barrier_obj, 0, q.barrier()); QS(trial_barrier_obj, 1, q.barrier());
   QV(curr_grad_barrier_obj_x, 0, q.gbx()); QV(curr_grad_barrier_obj_s, 0, q.gbs());
   QV(grad_kappa_times_damping_x, 0, q.dampx()); QV(grad_kappa_times_damping_s, 0, q.damps());
   QV(curr_c, 0, q.c()); QV(unscaled_curr_c, 0, div_(q.c(), e.R.dc)); QV(trial_c, 1, q.c()); QV(unscaled_trial_c, 1, div_(q.c(), e.R.dc));
   QV(curr_d, 0, q.d()); QV(unscaled_curr_d, 0, div_(q.d(), e.R.dd)); QV(trial_d, 1, q.d());
   QV(curr_d_minus_s, 0, q.dms()); QV(trial_d_minus_s, 1, q.dms());
   Q0(curr_jac_c, 0, matflat(*e.cq->curr_jac_c(), *e.data->curr()->x(), *e.data->curr()->y_c()), rows(e.R.jc(q.P.v[X])));
   Q0(trial_jac_c, 1, matflat(*e.cq->trial_jac_c(), *e.data->curr()->x(), *e.data->curr()->y_c()), rows(e.R.jc(q.P.v[X])));
   Q0(curr_jac_d, 0, matflat(*e.cq->curr_jac_d(), *e.data->curr()->x(), *e.data->curr()->y_d()), rows(e.R.jd(q.P.v[X])));
   Q0(trial_jac_d, 1, matflat(*e.cq->trial_jac_d(), *e.data->curr()->x(), *e.data->curr()->y_d()), rows(e.R.jd(q.P.v[X])));
   Q0(curr_jac_cT_times_vec, 0, flat(*e.cq->curr_jac_cT_times_vec(*e.v1)), matT(e.R.jc(q.P.v[X]), e.a1, e.R.nx)); v.back().arg = 2;
   Q0(trial_jac_cT_times_vec, 1, flat(*e.cq->trial_jac_cT_times_vec(*e.v1)), matT(e.R.jc(q.P.v[X]), e.a1, e.R.nx)); v.back().arg = 2;
   Q0(curr_jac_dT_times_vec, 0, flat(*e.cq->curr_jac_dT_times_vec(*e.v1)), matT(e.R.jd(q.P.v[X]), e.a1, e.R.nx)); v.back().arg = 3;
   Q0(trial_jac_dT_times_vec, 1, flat(*e.cq->trial_jac_dT_times_vec(*e.v1)), matT(e.R.jd(q.P.v[X]), e.a1, e.R.nx)); v.back().arg = 3;
   QV(curr_jac_cT_times_curr_y_c, 0, q.jcy()); QV(trial_jac_cT_times_trial_y_c, 2, q.jcy());
   QV(curr_jac_dT_times_curr_y_d, 0, q.jdy()); QV(trial_jac_dT_times_trial_y_d, 2, q.jdy());
   Q0(curr_jac_c_times_vec, 0, flat(*e.cq->curr_jac_c_times_vec(*e.v1)), mat(e.R.jc(q.P.v[X]), e.a1)); v.back().arg = 1;
   Q0(curr_jac_d_times_vec, 0, flat(*e.cq->curr_jac_d_times_vec(*e.v1)), mat(e.R.jd(q.P.v[X]), e.a1)); v.back().arg = 1;
   QS(curr_constraint_violation, 0, q.primal(e.R.cvn)); QS(trial_constraint_violation, 1, q.primal(e.R.cvn));
   Q0(curr_nlp_constraint_violation, 0, Vec(1, e.cq->curr_nlp_constraint_violation(e.nt)), Vec(1, q.nlpviol(e.nt, false)));
   Q0(unscaled_curr_nlp_constraint_violation, 0, Vec(1, e.cq->unscaled_curr_nlp_constraint_violation(e.nt)), Vec(1, q.nlpviol(e.nt, true)));
   Q0(unscaled_trial_nlp_constraint_violation, 1, Vec(1, e.cq->unscaled_trial_nlp_constraint_violation(e.nt)), Vec(1, q.nlpviol(e.nt, true)));
   Q0(curr_exact_hessian, 0, matflat(*e.cq->curr_exact_hessian(), *e.data->curr()->x(), *e.data->curr()->x()), rows(e.R.h(q.P.v[X], q.P.v[YC], q.P.v[YD], e.mu)));
   QV(curr_grad_lag_x, 0, q.glx()); QV(trial_grad_lag_x, 2, q.glx()); QV(curr_grad_lag_s, 0, q.gls()); QV(trial_grad_lag_s, 2, q.gls());
   QV(curr_grad_lag_with_damping_x, 0, add(q.glx(), scal(q.dampx(), e.mu))); QV(curr_grad_lag_with_damping_s, 0, add(q.gls(), scal(q.damps(), e.mu)));
   QV(curr_compl_x_L, 0, q.compl_()[0]); QV(curr_compl_x_U, 0, q.compl_()[1]); QV(curr_compl_s_L, 0, q.compl_()[2]); QV(curr_compl_s_U, 0, q.compl_()[3]);
   QV(trial_compl_x_L, 2, q.compl_()[0]); QV(trial_compl_x_U, 2, q.compl_()[1]); QV(trial_compl_s_L, 2, q.compl_()[2]); QV(trial_compl_s_U, 2, q.compl_()[3]);
   QV(curr_relaxed_compl_x_L, 0, q.rcompl(e.mu)[0]); QV(curr_relaxed_compl_x_U, 0, q.rcompl(e.mu)[1]);
   QV(curr_relaxed_compl_s_L, 0, q.rcompl(e.mu)[2]); QV(curr_relaxed_compl_s_U, 0, q.rcompl(e.mu)[3]);
   Q0(curr_primal_infeasibility, 0, Vec(1, e.cq->curr_primal_infeasibility(e.nt)), Vec(1, q.primal(e.nt)));
   Q0(trial_primal_infeasibility, 1, Vec(1, e.cq->trial_primal_infeasibility(e.nt)), Vec(1, q.primal(e.nt)));
   Q0(curr_dual_infeasibility, 0, Vec(1, e.cq->curr_dual_infeasibility(e.nt)), Vec(1, q.dual(e.nt)));
   Q0(trial_dual_infeasibility, 2, Vec(1, e.cq->trial_dual_infeasibility(e.nt)), Vec(1, q.dual(e.nt)));
   Q0(unscaled_curr_dual_infeasibility, 0, Vec(1, e.cq->unscaled_curr_dual_infeasibility(e.nt)), Vec(1, q.udual(e.nt)));
   Q0(curr_complementarity, 0, Vec(1, e.cq->curr_complementarity(e.par, e.nt)), Vec(1, q.cmpl(e.par, e.nt)));
   Q0(trial_complementarity, 2, Vec(1, e.cq->trial_complementarity(e.par, e.nt)), Vec(1, q.cmpl(e.par, e.nt)));
   Q0(unscaled_curr_complementarity, 0, Vec(1, e.cq->unscaled_curr_complementarity(e.par, e.nt)), Vec(1, q.cmpl(e.par, e.nt) / std::fabs(e.R.df)));
   QS(curr_centrality_measure, 0, q.centr());
   QS(curr_nlp_error, 0, q.nlperr()); QS(unscaled_curr_nlp_error, 0, q.unlperr()); QS(curr_barrier_error, 0, q.barerr());
   Q0(curr_primal_dual_system_error, 0, Vec(1, e.cq->curr_primal_dual_system_error(e.par)), Vec(1, q.pderr(e.par)));
   Q0(trial_primal_dual_system_error, 2, Vec(1, e.cq->trial_primal_dual_system_error(e.par)), Vec(1, q.pderr(e.par)));
   Q0(curr_primal_frac_to_the_bound, 3, Vec(1, e.cq->curr_primal_frac_to_the_bound(0.5 + 0.5 * e.par)), Vec(1, q.pftb(0.5 + 0.5 * e.par, e.del.v[X], e.del.v[S])));
   Q0(primal_frac_to_the_bound, 3, Vec(1, e.cq->primal_frac_to_the_bound(0.5 + 0.5 * e.par, *e.v1, *e.data->delta()->s())), Vec(1, q.pftb(0.5 + 0.5 * e.par, e.a1, e.del.v[S]))); v.back().arg = 1;
   Q0(curr_dual_frac_to_the_bound, 3, Vec(1, e.cq->curr_dual_frac_to_the_bound(0.5 + 0.5 * e.par)), Vec(1, q.dftb(0.5 + 0.5 * e.par, e.del)));
   Q0(uncached_dual_frac_to_the_bound, 3, Vec(1, e.cq->uncached_dual_frac_to_the_bound(0.5 + 0.5 * e.par, *e.data->delta()->z_L(), *e.data->delta()->z_U(), *e.data->delta()->v_L(), *e.data->delta()->v_U())),
      Vec(1, q.dftb(0.5 + 0.5 * e.par, e.del)));
   Q0(uncached_slack_frac_to_the_bound, 3, Vec(1, e.cq->uncached_slack_frac_to_the_bound(0.5 + 0.5 * e.par, *e.data->delta()->z_L(), *e.data->delta()->z_U(), *e.data->delta()->v_L(), *e.data->delta()->v_U())),
      Vec(1, std::min(std::min(RefQ::ftb(q.slxl(), e.del.v[ZL], 0.5 + 0.5 * e.par), RefQ::ftb(q.slxu(), e.del.v[ZU], 0.5 + 0.5 * e.par)),
                      std::min(RefQ::ftb(q.slsl(), e.del.v[VL], 0.5 + 0.5 * e.par), RefQ::ftb(q.slsu(), e.del.v[VU], 0.5 + 0.5 * e.par)))));
   QV(curr_sigma_x, 0, q.sigx()); QV(curr_sigma_s, 0, q.sigs());
   QS(curr_avrg_compl, 0, q.avrg()); QS(trial_avrg_compl, 2, q.avrg());
   Q0(curr_gradBarrTDelta, 3, Vec(1, e.cq->curr_gradBarrTDelta()), Vec(1, dot(e.del.v[X], q.gbx()) + dot(e.del.v[S], q.gbs())));
   QV(unscaled_curr_orig_x_L_violation, 0, q.origL()); QV(unscaled_curr_orig_x_U_violation, 0, q.origU());
   Q0(unscaled_curr_orig_bounds_violation, 0, Vec(1, e.cq->unscaled_curr_orig_bounds_violation(e.nt)), Vec(1, norm(e.nt, {q.origL(), q.origU()})));
   return v;
}

static Vec rndin(pbt::Src& s, const Vec& l, const Vec& u, double edge)
{
   Vec r(l.size());
   for( size_t i = 0; i < r.size(); ++i )
   {
      bool L = l[i] > -1e19, U = u[i] < 1e19;
      if( L && U )
         r[i] = l[i] + s.real(0.02, 0.98) * (u[i] - l[i]);
      else if( L )
         r[i] = l[i] + s.real(0.01, 4);
      else if( U )
         r[i] = u[i] - s.real(0.01, 4);
      else
         r[i] = s.real(-3, 3);
      // a hair outside of the user's bound but inside of the relaxed one
      if( edge > 0 && L && s.flip(edge) )
         r[i] = l[i] + std::ldexp(std::max(1., std::fabs(l[i])), -50);
      else if( edge > 0 && U && s.flip(edge) )
         r[i] = u[i] - std::ldexp(std::max(1., std::fabs(u[i])), -50);
   }
   return r;
}
static Vec rnd(pbt::Src& s, size_t n, double a, double b)
{
   Vec r(n);
   for( double& e : r )
      e = s.flip(0.1) ? (s.flip() ? a : 0.) : s.real(a, b);
   return r;
}
static Vec rndcomp(Env& e, int k)
{
   pbt::Src& s = e.c->src;
   switch( k )
   {
      case X: return rndin(s, e.R.xl, e.R.xu, 0);
      case S: return rndin(s, e.R.dl, e.R.du, 0);
      case YC: return rnd(s, e.R.nc, -3, 3);
      case YD: return rnd(s, e.R.nd, -3, 3);
      case ZL: return rndin(s, Vec(e.R.xL.size(), 0.), Vec(e.R.xL.size(), INF), 0);
      case ZU: return rndin(s, Vec(e.R.xU.size(), 0.), Vec(e.R.xU.size(), INF), 0);
      case VL: return rndin(s, Vec(e.R.dL.size(), 0.), Vec(e.R.dL.size(), INF), 0);
      default: return rndin(s, Vec(e.R.dU.size(), 0.), Vec(e.R.dU.size(), INF), 0);
   }
}

struct Hist
{
   Env e;
   SmartPtr<IteratesVector> proto;
   std::vector<std::pair<Vec, SmartPtr<const Vector> > > pool[8];
   SmartPtr<const Vector> fresh(int k, const Vec& val)
   {
      SmartPtr<const Vector> v = ConstPtr(mk(*proto->GetComp(k), val));
      pool[k].push_back(std::make_pair(val, v));
      return v;
   }
   SmartPtr<IteratesVector> iterate(Pt& out, double reuse)
   {
      pbt::Src& s = e.c->src;
      SmartPtr<IteratesVector> w = proto->MakeNewIteratesVector(false);
      for( int k = 0; k < 8; ++k )
      {
         SmartPtr<const Vector> v;
         if( !pool[k].empty() && s.flip(reuse) )
         {
            // the same object again, or an equal copy with a tag of its own
            auto& q = pool[k][pool[k].size() - 1 - s.below(std::min<size_t>(pool[k].size(), 4))];
            out.v[k] = q.first;
            v = q.second;
            if( s.flip(0.15) )
               v = ConstPtr(mk(*v, q.first));
         }
         else
         {
            out.v[k] = rndcomp(e, k);
            v = fresh(k, out.v[k]);
         }
         w->SetComp(k, *v);
      }
      return w;
   }
};
static void history(Hist& h, int len, const std::vector<Query>& qs, std::function<bool()> faulting, std::function<void()> togglefault)
{
   Env& e = h.e;
   Ctx& c = *e.c;
   pbt::Src& s = c.src;
   IpoptData& D = *e.data;
   h.proto = D.curr()->MakeNewIteratesVector(true);
   {
      SmartPtr<IteratesVector> w = h.iterate(e.cur, 0);
      D.set_trial(w);
      D.AcceptTrialPoint();
   }
   D.Set_mu(e.mu);
   D.Set_tau(0.99);
   int nq = 0, changes = 0;
   for( int k = 0; k < len; ++k )
   {
      int op = s.below(22);
      if( op == 0 )
      {
         SmartPtr<IteratesVector> w = h.iterate(e.tri, 0.5);
         D.set_trial(w);
         e.have_trial = e.have_tmul = true;
         c.desc << "set_trial ";
         ++changes;
      }
      else if( op == 1 && e.have_tmul )
      {
         if( s.flip(0.7) )
         {
            D.AcceptTrialPoint();
            e.have_trial = e.have_tmul = false;
            c.desc << "accept ";
         }
         else
         {
            D.CopyTrialToCurrent();
            c.desc << "copy ";
         }
         e.cur = e.tri;
         ++changes;
      }
      else if( op == 2 && e.have_delta )
      {
         // a step that stays inside
         RefQ q(e.R, e.cur, e.mu);
         double a = q.pftb(0.95, e.del.v[X], e.del.v[S]) * s.real(0, 1);
         if( s.flip(0.1) )
            a = 0;
         D.SetTrialPrimalVariablesFromStep(a, *D.delta()->x(), *D.delta()->s());
         for( int i : {X, S} )
            e.tri.v[i] = add(e.cur.v[i], scal(e.del.v[i], a));
         e.have_trial = true;
         c.desc << "primal-step ";
         ++changes;
      }
      else if( op == 3 && e.have_delta && e.have_tmul )
      {
         double a = s.real(0, 1);
         D.SetTrialEqMultipliersFromStep(a, *D.delta()->y_c(), *D.delta()->y_d());
         for( int i : {YC, YD} )
            e.tri.v[i] = add(e.cur.v[i], scal(e.del.v[i], a));
         c.desc << "eqmult-step ";
         ++changes;
      }
      else if( op == 4 && e.have_delta && e.have_tmul )
      {
         RefQ q(e.R, e.cur, e.mu);
         double a = q.dftb(0.95, e.del) * s.real(0, 1);
         D.SetTrialBoundMultipliersFromStep(a, *D.delta()->z_L(), *D.delta()->z_U(), *D.delta()->v_L(), *D.delta()->v_U());
         for( int i : {ZL, ZU, VL, VU} )
            e.tri.v[i] = add(e.cur.v[i], scal(e.del.v[i], a));
         c.desc << "boundmult-step ";
         ++changes;
      }
      else if( op == 5 )
      {
         static const double m[] = {1, 0.1, 0.1, 1e-2, 1e-5, 1e-9};
         e.mu = m[s.below(6)];
         D.Set_mu(e.mu);
         c.desc << "mu=" << e.mu << " ";
         ++changes;
      }
      else if( op == 6 )
      {
         SmartPtr<IteratesVector> w = h.proto->MakeNewIteratesVector(true);
         for( int i = 0; i < 8; ++i )
         {
            e.del.v[i] = rnd(s, h.proto->GetComp(i)->Dim(), -2, 2);
            SmartPtr<Vector> v = mk(*h.proto->GetComp(i), e.del.v[i]);
            w->SetComp(i, *v);
         }
         D.set_delta(w);
         e.have_delta = true;
         c.desc << "delta ";
         ++changes;
      }
      else if( op == 7 && togglefault )
      {
         togglefault();
         c.desc << (faulting() ? "faults-on " : "faults-off ");
      }
      else
      {
         const Query& q = qs[s.below(qs.size())];
         if( (q.need == 1 && !e.have_trial) || (q.need == 2 && !e.have_tmul) || (q.need == 3 && !e.have_delta) )
            continue;
         static const ENormType nts[] = {NORM_1, NORM_2, NORM_MAX};
         e.nt = nts[s.below(3)];
         static const double pars[] = {0, 0.1, 1e-3, 0.7, 1};
         e.par = pars[s.below(5)];
         if( q.arg )
         {
            int comp = q.arg == 1 ? X : q.arg == 2 ? YC : YD;
            if( h.pool[comp].empty() || s.flip() )
            {
               e.a1 = rnd(s, h.proto->GetComp(comp)->Dim(), -2, 2);
               e.v1 = mk(*h.proto->GetComp(comp), e.a1);
            }
            else
            {
               auto& pq = h.pool[comp][s.below(h.pool[comp].size())];
               e.a1 = pq.first;
               e.v1 = const_cast<Vector*>(GetRawPtr(pq.second));
            }
         }
         c.desc << q.name << " ";
         Vec ref = q.ref(e), got;
         try
         {
            got = q.impl(e);
         }
         catch( IpoptNLP::Eval_Error& )
         {
            PBT_CHECK(c, faulting && faulting(), "exception", "%s throws Eval_Error although no evaluation fails", q.name);
            c.label("evaluation error");
            continue;
         }
         ++nq;
         c.label(q.name);
         PBT_CHECK(c, ref.size() == got.size(), "dim", "%s has dimension %d instead of %d", q.name, (int)got.size(), (int)ref.size());
         double mx = 1;
         for( double r : ref )
            mx = std::max(mx, std::fabs(r));
         if( !(mx < 1e30) )
            continue;
         mx = std::max(mx, 100.);
         for( size_t i = 0; i < ref.size(); ++i )
            PBT_CHECK(c, std::fabs(ref[i] - got[i]) <= 1e-10 * mx, q.name, "%s [%d] is %.17g, from scratch %.17g (mu %g, argument %g, norm %d)", q.name, (int)i, got[i], ref[i], e.mu, e.par, (int)e.nt);
      }
   }
   c.nontrivial = nq >= 10 && changes >= 3;
}
static void orig_ref(const Problem& p, Ref& R, double df, const Vec& dxu, const Vec& dgu, std::vector<int>& vars, std::vector<int>& eq, std::vector<int>& in)
{
   for( int i = 0; i < p.n; ++i )
      if( !p.fixed(i) )
         vars.push_back(i);
   for( int j = 0; j < p.m; ++j )
      (p.gl[j] == p.gu[j] ? eq : in).push_back(j);
   R.nx = (int)vars.size();
   R.nc = (int)eq.size();
   R.nd = (int)in.size();
   R.df = df;
   for( int i : vars ) R.dx.push_back(dxu[i]), R.oxl.push_back(p.xl[i]), R.oxu.push_back(p.xu[i]);
   for( int j : eq ) R.dc.push_back(dgu[j]);
   for( int j : in ) R.dd.push_back(dgu[j]);
   auto full = [&p, vars, R](const Vec& x) { Vec r(p.xl); for( size_t k = 0; k < vars.size(); ++k ) r[vars[k]] = x[k] / R.dx[k]; return r; };
   auto restr = [vars, R](const Vec& g, double w) { Vec r; for( size_t k = 0; k < vars.size(); ++k ) r.push_back(w * g[vars[k]] / R.dx[k]); return r; };
   R.f = [=, &p](const Vec& x, double) { Vec u = full(x); return df * p.f.val(u.data()); };
   R.gf = [=, &p](const Vec& x, double) { Vec u = full(x), g(p.n, 0.); p.f.grad(u.data(), g.data()); return restr(g, df); };
   Vec dc = R.dc, dd = R.dd;
   R.c = [=, &p](const Vec& x) { Vec u = full(x), r; for( size_t k = 0; k < eq.size(); ++k ) r.push_back(dc[k] * (p.g[eq[k]].val(u.data()) - p.gl[eq[k]])); return r; };
   R.d = [=, &p](const Vec& x) { Vec u = full(x), r; for( size_t k = 0; k < in.size(); ++k ) r.push_back(dd[k] * p.g[in[k]].val(u.data())); return r; };
   R.jc = [=, &p](const Vec& x) { Vec u = full(x); std::vector<Vec> r; for( size_t k = 0; k < eq.size(); ++k ) { Vec g(p.n, 0.); p.g[eq[k]].grad(u.data(), g.data()); r.push_back(restr(g, dc[k])); } return r; };
   R.jd = [=, &p](const Vec& x) { Vec u = full(x); std::vector<Vec> r; for( size_t k = 0; k < in.size(); ++k ) { Vec g(p.n, 0.); p.g[in[k]].grad(u.data(), g.data()); r.push_back(restr(g, dd[k])); } return r; };
   Vec dx = R.dx;
   auto hess = [=, &p](const Vec& x, const Vec& yc, const Vec& yd, bool obj)
   {
      Vec u = full(x), H(p.n * p.n, 0.);
      if( obj ) p.f.hess(u.data(), H.data(), p.n, df);
      for( size_t k = 0; k < eq.size(); ++k ) p.g[eq[k]].hess(u.data(), H.data(), p.n, dc[k] * yc[k]);
      for( size_t k = 0; k < in.size(); ++k ) p.g[in[k]].hess(u.data(), H.data(), p.n, dd[k] * yd[k]);
      std::vector<Vec> r(vars.size(), Vec(vars.size()));
      for( size_t a = 0; a < vars.size(); ++a )
         for( size_t b = 0; b < vars.size(); ++b )
            r[a][b] = H[vars[a] * p.n + vars[b]] / dx[a] / dx[b];
      return r;
   };
   R.h = [hess](const Vec& x, const Vec& yc, const Vec& yd, double) { return hess(x, yc, yd, true); };
   R.hc = [hess](const Vec& x, const Vec& yc, const Vec& yd, double) { return hess(x, yc, yd, false); };
}
struct Setup
{
   Problem p;
   Pres pres;
   Opts o;
   SmartPtr<RecTNLP> t;
   SmartPtr<IpoptApplication> app;
   SmartPtr<NLP> ad;
   Hist h;
   bool faulty = false;
   bool fault_on = false;
};
static void prepare(Ctx& c, Setup& u, bool resto)
{
   pbt::Src& s = c.src;
   GenCfg g;
   g.fixed = s.flip(0.2);
   u.p = s.flip(0.4) ? gen_convex(c, g) : gen_general(c, g);
   u.pres = s.flip(0.3) ? gen_pres(c, u.p) : plain_pres(u.p);
   u.o = base_opts();
   static const char* nn[] = {"1-norm", "2-norm", "max-norm"};
   static const ENormType nts[] = {NORM_1, NORM_2, NORM_MAX};
   int k = s.below(3);
   u.o.S("constraint_violation_norm_type", nn[k]);
   Ref& R = u.h.e.R;
   R.cvn = nts[k];
   if( s.flip(0.5) )
   {
      static const double kd[] = {0, 1e-5, 0.01, 0.5, 3};
      R.kappa_d = kd[s.below(5)];
      u.o.N("kappa_d", R.kappa_d);
   }
   if( s.flip(0.3) )
      u.o.N("s_max", R.s_max = s.flip() ? 1 : 0.1);
   if( s.flip(0.2) )
      u.o.N("mu_target", R.mu_target = 0.01);
   u.t = new RecTNLP(u.p, u.pres);
   double df = 1;
   Vec dx(u.p.n, 1.), dg(u.p.m, 1.);
   if( s.flip() )
   {
      u.o.S("nlp_scaling_method", "user-scaling");
      u.t->give_scaling = true;
      df = u.t->obj_scaling = std::ldexp(s.flip(0.2) ? -1. : 1., s.integer(-3, 3));
      if( s.flip(0.6) )
      {
         u.t->use_x_scaling = true;
         for( double& e : dx ) e = std::ldexp(1., s.integer(-3, 3));
         u.t->x_scaling = dx;
      }
      if( s.flip(0.6) )
      {
         u.t->use_g_scaling = true;
         for( double& e : dg ) e = std::ldexp(1., s.integer(-3, 3));
         u.t->g_scaling = dg;
      }
   }
   else
      u.o.S("nlp_scaling_method", "none");
   if( s.flip(0.2) )
   {
      u.o.N("obj_scaling_factor", 4.);
      df *= 4;
   }
   if( s.flip(0.3) )
      u.o.N("bound_relax_factor", s.flip() ? 0. : 1e-4);
   std::vector<int> vars, eq, in;
   orig_ref(u.p, R, df, dx, dg, vars, eq, in);
   if( R.nx == 0 || R.nc > R.nx )
      c.discard();
   c.desc << u.p.show() << u.o.show() << " scaling " << df << " x " << vs(dx) << " g " << vs(dg) << "\n";
   u.app = new IpoptApplication(false);
   u.app->RethrowNonIpoptException(true);
   if( !u.o.apply(*u.app->Options()) )
      c.discard();
   u.app->Initialize("");
   u.ad = new TNLPAdapter(GetRawPtr(u.t), ConstPtr(u.app->Jnlst()));
   Env& e = u.h.e;
   e.c = &c;
   AlgorithmBuilder b;
   b.BuildIpoptObjects(*u.app->Jnlst(), *u.app->Options(), "", u.ad, e.inlp, e.data, e.cq);
   if( !e.data->Initialize(*u.app->Jnlst(), *u.app->Options(), "") || !e.cq->Initialize(*u.app->Jnlst(), *u.app->Options(), "") || !e.inlp->Initialize(*u.app->Jnlst(), *u.app->Options(), "") )
      c.discard();
   if( !e.data->InitializeDataStructures(*e.inlp, true, false, false, false, false) )
      c.discard();
   // bounds: relaxed first, then scaled
   double brf = u.o.num("bound_relax_factor", 1e-8), cvt = 1e-4;
   auto rl = [&](double b_) { return b_ <= -1e19 ? -INF : b_ - std::min(cvt, brf * std::max(1., std::fabs(b_))); };
   auto ru = [&](double b_) { return b_ >= 1e19 ? INF : b_ + std::min(cvt, brf * std::max(1., std::fabs(b_))); };
   for( size_t k2 = 0; k2 < vars.size(); ++k2 )
   {
      double l = rl(u.p.xl[vars[k2]]), w = ru(u.p.xu[vars[k2]]);
      R.xl.push_back(l > -1e19 ? l * dx[vars[k2]] : -INF);
      R.xu.push_back(w < 1e19 ? w * dx[vars[k2]] : INF);
   }
   for( size_t k2 = 0; k2 < in.size(); ++k2 )
   {
      double l = rl(u.p.gl[in[k2]]), w = ru(u.p.gu[in[k2]]);
      R.dl.push_back(l > -1e19 ? l * dg[in[k2]] : -INF);
      R.du.push_back(w < 1e19 ? w * dg[in[k2]] : INF);
   }
   R.idx();
   Vec bx[4] = {flat(*e.inlp->x_L()), flat(*e.inlp->x_U()), flat(*e.inlp->d_L()), flat(*e.inlp->d_U())};
   std::vector<int>* ix[4] = {&R.xL, &R.xU, &R.dL, &R.dU};
   Vec* bv[4] = {&R.xl, &R.xu, &R.dl, &R.du};
   for( int k2 = 0; k2 < 4; ++k2 )
   {
      PBT_CHECK(c, bx[k2].size() == ix[k2]->size(), "bounds", "%d bounds of kind %d instead of %d", (int)bx[k2].size(), k2, (int)ix[k2]->size());
      for( size_t i = 0; i < bx[k2].size(); ++i )
         PBT_CHECK(c, std::fabs(bx[k2][i] - (*bv[k2])[(*ix[k2])[i]]) <= 1e-14 * (1 + std::fabs(bx[k2][i])), "bounds", "bound %d of kind %d is %.17g instead of %.17g", (int)i, k2, bx[k2][i], (*bv[k2])[(*ix[k2])[i]]);
   }
   u.faulty = !resto && s.flip(0.25);
   if( u.faulty )
   {
      int kind = F_FALSE;   // an invalid number is a value, and values of a point may be kept
      int what = s.below(6);
      Setup* pu = &u;
      u.t->fault = [pu, kind, what](int k2, long, const double*) -> int
      {
         if( !pu->fault_on || (what == 0 && k2 != K_F) || (what == 1 && k2 != K_G) || (what == 2 && k2 != K_JAC) || (what == 3 && k2 != K_GRAD) )
            return F_NONE;
         return k2 == K_F || k2 == K_G || k2 == K_GRAD || k2 == K_JAC || k2 == K_HESS ? (k2 == K_F || k2 == K_G ? kind : F_FALSE) : F_NONE;
      };
   }
}
static void f_history(Ctx& c)
{
   static const std::vector<Query> qs = queries();
   Setup u;
   prepare(c, u, false);
   int len = c.src.integer(20, 120);
   Setup* pu = &u;
   if( u.faulty )
      history(u.h, len, qs, [pu] { return pu->fault_on; }, [pu] { pu->fault_on = !pu->fault_on; });
   else
      history(u.h, len, qs, nullptr, nullptr);
   for( auto& v : u.t->out.viol )
      c.fail(v.first.c_str(), "%s", v.second.c_str());
}

// the same for the problem solved in the restoration phase
static void f_resto(Ctx& c)
{
   static std::vector<Query> qs;
   if( qs.empty() )
      for( auto& q : queries() )
         if( !strstr(q.name, "unscaled") && !strstr(q.name, "orig") )
            qs.push_back(q);
   Setup u;
   prepare(c, u, true);
   pbt::Src& s = c.src;
   Env& o = u.h.e;
   const Ref& R = o.R;
   IpoptData& D = *o.data;
   u.h.proto = D.curr()->MakeNewIteratesVector(true);
   {
      SmartPtr<IteratesVector> w = u.h.iterate(o.cur, 0);
      D.set_trial(w);
      D.AcceptTrialPoint();
      D.Set_mu(0.1);
      D.Set_tau(0.99);
   }
   OptionsList ol(*u.app->Options());
   double rho = 1000, prox = 1;
   if( s.flip() )
      ol.SetNumericValue("resto.resto_penalty_parameter", rho = s.flip() ? 1 : 30);
   if( s.flip() )
      ol.SetNumericValue("resto.resto_proximity_weight", prox = s.flip() ? 0 : 4);
   Hist h;
   Env& e = h.e;
   e.c = &c;
   e.inlp = new RestoIpoptNLP(*o.inlp, D, *o.cq);
   e.data = new IpoptData();
   e.cq = new CQ(e.inlp, e.data);
   if( !e.inlp->Initialize(*u.app->Jnlst(), ol, "resto.") || !e.data->Initialize(*u.app->Jnlst(), ol, "resto.") || !e.cq->Initialize(*u.app->Jnlst(), ol, "resto.") )
      c.fail("init", "objects of the restoration phase do not initialize");
   e.data->InitializeDataStructures(*e.inlp, false, false, false, false, false);
   int n = R.nx, nc = R.nc, nd = R.nd, N = n + 2 * nc + 2 * nd;
   Vec xr = o.cur.v[X], dr(n);
   for( int i = 0; i < n; ++i )
      dr[i] = 1 / std::max(1., std::fabs(xr[i]));
   Ref& Q = e.R;
   Q = R;
   Q.xL.clear(), Q.xU.clear(), Q.dL.clear(), Q.dU.clear();
   Q.nx = N;
   for( int i = n; i < N; ++i )
      Q.xl.push_back(0), Q.xu.push_back(INF);
   Q.idx();
   Q.df = 1;
   Q.dx = Vec(N, 1.);
   auto head = [n](const Vec& x) { return Vec(x.begin(), x.begin() + n); };
   const Ref* pR = &R;
   Q.f = [=](const Vec& x, double mu)
   {
      double r = 0, t = 0;
      for( int i = n; i < N; ++i ) r += rho * x[i];
      for( int i = 0; i < n; ++i ) t += dr[i] * dr[i] * (x[i] - xr[i]) * (x[i] - xr[i]);
      return r + prox * std::sqrt(mu) / 2 * t;
   };
   Q.gf = [=](const Vec& x, double mu)
   {
      Vec g(N, rho);
      for( int i = 0; i < n; ++i ) g[i] = prox * std::sqrt(mu) * dr[i] * dr[i] * (x[i] - xr[i]);
      return g;
   };
   Q.c = [=](const Vec& x) { Vec r = pR->c(head(x)); for( int k = 0; k < nc; ++k ) r[k] += x[n + k] - x[n + nc + k]; return r; };
   Q.d = [=](const Vec& x) { Vec r = pR->d(head(x)); for( int k = 0; k < nd; ++k ) r[k] += x[n + 2 * nc + k] - x[n + 2 * nc + nd + k]; return r; };
   Q.jc = [=](const Vec& x)
   {
      std::vector<Vec> r = pR->jc(head(x));
      for( int k = 0; k < nc; ++k ) r[k].resize(N, 0.), r[k][n + k] = 1, r[k][n + nc + k] = -1;
      return r;
   };
   Q.jd = [=](const Vec& x)
   {
      std::vector<Vec> r = pR->jd(head(x));
      for( int k = 0; k < nd; ++k ) r[k].resize(N, 0.), r[k][n + 2 * nc + k] = 1, r[k][n + 2 * nc + nd + k] = -1;
      return r;
   };
   Q.h = [=](const Vec& x, const Vec& yc, const Vec& yd, double mu)
   {
      std::vector<Vec> a = pR->hc(head(x), yc, yd, mu), r(N, Vec(N, 0.));
      for( int i = 0; i < n; ++i )
      {
         for( int j = 0; j < n; ++j ) r[i][j] = a[i][j];
         r[i][i] += prox * std::sqrt(mu) * dr[i] * dr[i];
      }
      return r;
   };
   c.desc << " rho " << rho << " proximity " << prox << " reference " << vs(xr) << "\n";
   history(h, s.integer(20, 120), qs, nullptr, nullptr);
}

// slacks of points at or outside of the bounds
static void f_slack(Ctx& c)
{
   Setup u;
   prepare(c, u, false);
   u.fault_on = false;
   Env& e = u.h.e;
   pbt::Src& s = c.src;
   IpoptData& D = *e.data;
   u.h.proto = D.curr()->MakeNewIteratesVector(true);
   double slack_move = std::pow(std::numeric_limits<double>::epsilon(), 0.75);
   static const double mus[] = {1, 0.1, 1e-3, 1e-9};
   bool adj = false;
   for( int round = 0; round < 3; ++round )
   {
      Pt q;
      e.mu = mus[s.below(4)];
      D.Set_mu(e.mu);
      D.Set_tau(0.99);
      SmartPtr<IteratesVector> w = u.h.iterate(q, 0);
      // tiny or negative slacks
      for( int k : {X, S} )
      {
         const Vec& l = k == X ? e.R.xl : e.R.dl;
         const Vec& up = k == X ? e.R.xu : e.R.du;
         for( size_t i = 0; i < l.size(); ++i )
            if( s.flip(0.5) )
            {
               bool lo = l[i] > -1e19 && (up[i] >= 1e19 || s.flip());
               if( !lo && up[i] >= 1e19 )
                  continue;
               static const double off[] = {0, 0, 1e-18, 1e-17, 1e-16, -1e-17, -1e-15, 1e-14, -1e-9};
               double o = off[s.below(9)];
               q.v[k][i] = lo ? l[i] + o : up[i] - o;
            }
         SmartPtr<Vector> v = mk(*u.h.proto->GetComp(k), q.v[k]);
         w->SetComp(k, *v);
      }
      if( round == 0 )
      {
         // a current point is needed first
         Pt q0;
         SmartPtr<IteratesVector> w0 = u.h.iterate(q0, 0);
         D.set_trial(w0);
         D.AcceptTrialPoint();
         e.cur = q0;
      }
      D.set_trial(w);
      e.tri = q;
      e.cq->ResetAdjustedTrialSlacks();
      Vec sl[4] = {flat(*e.cq->trial_slack_x_L()), flat(*e.cq->trial_slack_x_U()), flat(*e.cq->trial_slack_s_L()), flat(*e.cq->trial_slack_s_U())};
      RefQ r(e.R, e.tri, e.mu);
      Vec raw[4] = {r.slxl(), r.slxu(), r.slsl(), r.slsu()};
      const std::vector<int>* ix[4] = {&e.R.xL, &e.R.xU, &e.R.dL, &e.R.dU};
      const Vec* bv[4] = {&e.R.xl, &e.R.xu, &e.R.dl, &e.R.du};
      int n = 0;
      bool anysmall = false;
      double smin = std::numeric_limits<double>::epsilon() * std::min(1., e.mu);
      for( int k = 0; k < 4; ++k )
         for( size_t i = 0; i < raw[k].size(); ++i )
         {
            double b = (*bv[k])[(*ix[k])[i]], z = e.cur.v[ZL + k][i];
            c.desc << " raw slack " << raw[k][i] << " reported " << sl[k][i] << " multiplier " << z << " mu " << e.mu << "\n";
            double err = 1e-15 * std::fabs(b);
            PBT_CHECK(c, sl[k][i] > 0, "slack-positive", "slack %g of the point is reported as %g", raw[k][i], sl[k][i]);
            if( raw[k][i] > smin + err )
               PBT_CHECK(c, std::fabs(sl[k][i] - raw[k][i]) <= err, "slack-large", "slack %.17g is reported as %.17g (smallest allowed %g)", raw[k][i], sl[k][i], smin);
            else if( raw[k][i] < smin - err )
            {
               ++n;
               double base = std::max(0., raw[k][i]);
               double expect = std::min(std::max(e.mu / z, smin), slack_move * std::max(1., std::fabs(b)) + base);
               PBT_CHECK(c, std::fabs(sl[k][i] - expect) <= 1e-12 * expect + err, "slack-small", "slack %.17g is corrected to %.17g, documented rule gives %.17g (mu %g, multiplier %g, bound %g)", raw[k][i], sl[k][i], expect, e.mu, z, b);
            }
            else
               anysmall = true;
         }
      if( !anysmall )
      {
         PBT_CHECK(c, e.cq->AdjustedTrialSlacks() == n, "adjusted", "%d slacks were corrected, %d are reported", n, (int)e.cq->AdjustedTrialSlacks());
         if( n > 0 )
            adj = true;
      }
      // asking again gives the same
      PBT_CHECK(c, eqbits(flat(*e.cq->trial_slack_x_L()), sl[0]) && eqbits(flat(*e.cq->trial_slack_s_U()), sl[3]), "again", "a second query gives different slacks");
      double bar = e.cq->trial_barrier_obj(), expect = r.f();
      for( int k = 0; k < 4; ++k )
         for( size_t i = 0; i < sl[k].size(); ++i )
         {
            expect -= e.mu * std::log(sl[k][i]);
            int id = (*ix[k])[i];
            bool one = k == 0 ? e.R.xu[id] >= 1e19 : k == 1 ? e.R.xl[id] <= -1e19 : k == 2 ? e.R.du[id] >= 1e19 : e.R.dl[id] <= -1e19;
            if( one )
               expect += e.R.kappa_d * e.mu * sl[k][i];
         }
      PBT_CHECK(c, std::fabs(bar - expect) <= 1e-10 * (100 + std::fabs(expect)), "barrier", "barrier objective %.17g, from the slacks %.17g", bar, expect);
      if( s.flip() )
      {
         D.AcceptTrialPoint();
         e.cur = q;
         PBT_CHECK(c, eqbits(flat(*e.cq->curr_slack_x_L()), sl[0]) && eqbits(flat(*e.cq->curr_slack_x_U()), sl[1]) && eqbits(flat(*e.cq->curr_slack_s_L()), sl[2]) && eqbits(flat(*e.cq->curr_slack_s_U()), sl[3]), "accepted",
                   "slacks change when the point is accepted");
      }
   }
   c.nontrivial = adj;
}

// during a real solve: random queries in every report, in the restoration phase, too
static void f_solve(Ctx& c)
{
   static const std::vector<Query> qs = queries();
   Any a;
   gen_any(c, a, AF_STOP | AF_LIMITS | AF_WARM | AF_PENALTY, c.src.flip(0.3) ? 0.2 : 0.05);
   a.o.S("nlp_scaling_method", "none");
   a.o.N("kappa_d", 1e-5);
   a.o.N("s_max", 100);
   a.o.N("mu_target", 0);
   if( a.p.nfixed() > 0 || a.p.n == 0 )
      c.discard();
   std::vector<int> vars, eq, in;
   Env e;
   e.c = &c;
   orig_ref(a.p, e.R, a.o.num("obj_scaling_factor", 1.), Vec(a.p.n, 1.), Vec(a.p.m, 1.), vars, eq, in);
   {
      std::string cv = a.o.str("constraint_violation_norm_type", "1-norm");
      e.R.cvn = cv == "1-norm" ? NORM_1 : cv == "2-norm" ? NORM_2 : NORM_MAX;
   }
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   long nq = 0;
   unsigned seed = (unsigned)c.src.below(1000000) * 2654435761u + 12345u;
   auto below = [&seed](int n) { seed = seed * 1664525u + 1013904223u; return (int)((seed >> 8) % (unsigned)n); };
   auto prev = t->on_iter;
   t->on_iter = [&](RecTNLP& tt, const IterInfo& it, const IpoptData* ipd, IpoptCalculatedQuantities* ipcq) -> bool
   {
      bool ret = prev ? prev(tt, it, ipd, ipcq) : true;
      if( !ipd || !ipcq || it.mode != RegularMode || !IsValid(ipd->curr()) )
         return ret;
      e.data = const_cast<IpoptData*>(ipd);
      e.cq = ipcq;
      e.inlp = ipcq->GetIpoptNLP();
      if( !dynamic_cast<OrigIpoptNLP*>(GetRawPtr(e.inlp)) )
         return ret;
      for( int k = 0; k < 8; ++k )
         e.cur.v[k] = flat(*ipd->curr()->GetComp(k));
      e.have_delta = false;
      // bounds may have been moved
      e.R.xL.clear(), e.R.xU.clear(), e.R.dL.clear(), e.R.dU.clear();
      e.R.xl = e.R.oxl, e.R.xu = e.R.oxu;
      e.R.dl.clear(), e.R.du.clear();
      for( int j : in ) e.R.dl.push_back(a.p.gl[j]), e.R.du.push_back(a.p.gu[j]);
      e.R.idx();
      Vec b[4] = {flat(*e.inlp->x_L()), flat(*e.inlp->x_U()), flat(*e.inlp->d_L()), flat(*e.inlp->d_U())};
      if( b[0].size() != e.R.xL.size() || b[1].size() != e.R.xU.size() || b[2].size() != e.R.dL.size() || b[3].size() != e.R.dU.size() || (int)e.cur.v[YC].size() != e.R.nc )
         return ret;    // dependent equalities dropped
      for( size_t i = 0; i < b[0].size(); ++i ) e.R.xl[e.R.xL[i]] = b[0][i];
      for( size_t i = 0; i < b[1].size(); ++i ) e.R.xu[e.R.xU[i]] = b[1][i];
      for( size_t i = 0; i < b[2].size(); ++i ) e.R.dl[e.R.dL[i]] = b[2][i];
      for( size_t i = 0; i < b[3].size(); ++i ) e.R.du[e.R.dU[i]] = b[3][i];
      e.mu = ipd->curr_mu();
      RefQ rq(e.R, e.cur, e.mu);
      double mins = 1e300, M = 100;
      for( const Vec& v : {rq.slxl(), rq.slxu(), rq.slsl(), rq.slsu()} )
         for( double d : v ) mins = std::min(mins, d);
      for( int k = 0; k < 8; ++k )
         for( double d : e.cur.v[k] ) M = std::max(M, std::fabs(d));
      for( const Vec& bb : {b[0], b[1], b[2], b[3]} )
         for( double d : bb ) M = std::max(M, std::fabs(d));
      if( !(mins > 1e-12 * M) || !(M < 1e12) )
         return ret;
      for( int k = below(25); k > 0; --k )
      {
         const Query& q = qs[below((int)qs.size())];
         if( q.need != 0 || strstr(q.name, "orig") || (a.lbfgs && strstr(q.name, "hessian")) )
            continue;
         static const ENormType nts[] = {NORM_1, NORM_2, NORM_MAX};
         e.nt = nts[below(3)];
         static const double pars[] = {0, 0.1, 1e-3, 0.7, 1};
         e.par = pars[below(5)];
         if( q.arg )
         {
            int comp = q.arg == 1 ? X : q.arg == 2 ? YC : YD;
            e.a1 = e.cur.v[comp];
            for( double& d : e.a1 ) d = 1 + below(4);
            e.v1 = mk(*ipd->curr()->GetComp(comp), e.a1);
         }
         Vec ref = q.ref(e), got = q.impl(e);
         ++nq;
         double mx = M;
         for( double r : ref ) mx = std::max(mx, std::fabs(r));
         // magnitude of everything that may cancel
         for( auto& row : e.R.jc(e.cur.v[X]) ) for( double r : row ) mx = std::max(mx, std::fabs(r) * M);
         for( auto& row : e.R.jd(e.cur.v[X]) ) for( double r : row ) mx = std::max(mx, std::fabs(r) * M);
         for( double r : rq.gf() ) mx = std::max(mx, std::fabs(r));
         for( double r : rq.c() ) mx = std::max(mx, std::fabs(r));
         for( double r : rq.d() ) mx = std::max(mx, std::fabs(r));
         if( !(mx < 1e15) )
            continue;
         // slacks carry an error of eps times the bound
         double tol = 1e-9 * mx + (strstr(q.name, "sigma") || strstr(q.name, "barrier") || strstr(q.name, "centrality") ? 1e-14 * M / mins * mx : 0.);
         PBT_CHECK(c, ref.size() == got.size(), "dim", "%s has dimension %d instead of %d", q.name, (int)got.size(), (int)ref.size());
         c.label(q.name);
         for( size_t i = 0; i < ref.size(); ++i )
            PBT_CHECK(c, std::fabs(ref[i] - got[i]) <= tol, q.name, "iteration %d: %s [%d] is %.17g, from scratch %.17g (mu %g, argument %g, norm %d, tol %g)", it.iter, q.name, (int)i, got[i], ref[i], e.mu, e.par, (int)e.nt, tol);
      }
      return ret;
   };
   Outcome r = solve(GetRawPtr(t), a.o);
   c.label(statname(r.app));
   c.nontrivial = nq >= 5;
   e.data = NULL;
   e.cq = NULL;
   e.inlp = NULL;
}

int main(int argc, char** argv)
{
   pbt::Check k = {"P48",
                   "history/resto: at least 10 queries compared and 3 changes of point, barrier parameter or step; slack: at least one slack was corrected; solve: at least 5 quantities compared during the run",
                   {{"history", f_history, 16000, 400000}, {"resto", f_resto, 10000, 200000}, {"slack", f_slack, 6000, 100000}, {"solve", f_solve, 7000, 100000}}};
   return pbt::run_main(argc, argv, k);
}
