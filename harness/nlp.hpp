// Generated NLPs, an instrumented TNLP around them, and an independent KKT oracle.
#ifndef NLP_HPP
#define NLP_HPP
#include "pbt.hpp"
#include "IpTNLP.hpp"
#include "IpIpoptApplication.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpSolveStatistics.hpp"
#include <cmath>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace nlp
{
typedef std::vector<double> Vec;
const double INF = 1e20;   ///< no bound (Ipopt treats |b|>=1e19 as infinite)

enum Phi { LIN, SQ, QUART, EXP, SQRT1, LOGCOSH, CUBE, SIN, LOG1, COS, LOG, SQROOT };  // first 6 convex; LOG, SQROOT have restricted domain

/** c * phi(a.x + b) */
struct Term
{
   int kind = LIN;
   double c = 1, b = 0;
   std::vector<std::pair<int, double> > a;
};
struct Func
{
   double c0 = 0;
   std::vector<Term> t;
   double val(const double* x) const;
   void grad(const double* x, double* g, double w = 1) const;     ///< adds w*grad
   void hess(const double* x, double* H, int n, double w) const;  ///< adds w*hess to dense n x n (full)
   bool linear() const;
   std::string show() const;
};
struct Problem
{
   int n = 0, m = 0;
   Func f;
   std::vector<Func> g;
   Vec xl, xu, gl, gu, x0;
   bool convex = false;
   bool known = false;       ///< xs, lam, zl, zu below are the unique KKT point
   Vec xs, lam, zl, zu;
   double fs = 0;
   std::string show() const;
   std::vector<std::pair<int, int> > jac_struct() const;
   std::vector<std::pair<int, int> > hess_struct() const;   ///< lower triangle (i>=j)
   Vec geval(const double* x) const;
   bool fixed(int i) const { return xl[i] == xu[i]; }
   int nfixed() const { int k = 0; for( int i = 0; i < n; ++i ) k += fixed(i); return k; }
};
Problem permute(const Problem& p, const std::vector<int>& pv, const std::vector<int>& pc); ///< new var k = old pv[k]

struct GenCfg
{
   int nmin = 1, nmax = 6, mmax = 4;
   bool convex = false;          ///< convex problem with known unique KKT point
   bool equalities = true, inequalities = true, bounds = true, fixed = false;
   bool nonlinear_constr = true; ///< otherwise linear constraints
   bool quadratic_only = false;  ///< QP
   double bigscale = 0;          ///< probability of badly scaled functions
   bool strict_compl = true;
   bool empty_rows = true;
};
Problem gen_convex(pbt::Ctx& c, const GenCfg& cfg);   ///< known solution
Problem gen_general(pbt::Ctx& c, const GenCfg& cfg);  ///< smooth, feasible by construction, possibly nonconvex
Problem gen_infeasible(pbt::Ctx& c, const GenCfg& cfg);

/** how the derivative structures are written down */
struct Entry { int r, c; double w; };
struct Pres
{
   bool fortran = false;
   std::vector<Entry> jac, hess;     ///< value given for an entry is w * true value at (r,c)
};
Pres plain_pres(const Problem& p);
Pres gen_pres(pbt::Ctx& c, const Problem& p);

struct Opt { char type; std::string name, s; double d; int i; };
struct Opts
{
   std::vector<Opt> v;
   Opts& S(const std::string& n, const std::string& s) { v.push_back({'s', n, s, 0, 0}); return *this; }
   Opts& N(const std::string& n, double d) { v.push_back({'n', n, "", d, 0}); return *this; }
   Opts& I(const std::string& n, int i) { v.push_back({'i', n, "", 0, i}); return *this; }
   bool apply(Ipopt::OptionsList& o) const;
   std::string show() const;
   const Opt* find(const std::string& n) const { for( size_t k = v.size(); k-- > 0; ) if( v[k].name == n ) return &v[k]; return nullptr; }
   double num(const std::string& n, double def) const { const Opt* o = find(n); return o ? (o->type == 'i' ? o->i : o->d) : def; }
   std::string str(const std::string& n, const std::string& def) const { const Opt* o = find(n); return o ? o->s : def; }
};
Opts base_opts();

enum Kind { K_NLPINFO, K_BOUNDS, K_START, K_F, K_GRAD, K_G, K_JACS, K_JAC, K_HESSS, K_HESS, K_ITER, K_FINAL, K_SCALING, K_OTHER, K_COUNT };
extern const char* kindname[K_COUNT];
struct Event
{
   int kind;
   bool new_x, new_lam;
   double objf;
   Vec x, lam;
   bool ret;
};

struct IterInfo
{
   Ipopt::AlgorithmMode mode;
   int iter;
   double obj, inf_pr, inf_du, mu, d_norm, reg, alpha_du, alpha_pr;
   int ls;
};

struct UserException { int v; };   ///< thrown by fault F_THROW

enum Fault { F_NONE, F_FALSE, F_NAN, F_INF, F_THROW, F_NINF, F_NAN1 };

struct Outcome
{
   Ipopt::ApplicationReturnStatus app = Ipopt::Internal_Error;
   bool threw = false;
   int nfinal = 0;
   Ipopt::SolverReturn fin = Ipopt::UNASSIGNED;
   Vec x, zl, zu, g, lam;
   double obj = 0;
   std::vector<IterInfo> iters;
   int iter_count = -1;
   std::vector<std::pair<std::string, std::string> > viol;   ///< protocol violations: key, message
   long calls[K_COUNT] = {0};
   bool have_stats = false;
   double st_obj = 0, st_sobj = 0, st_dual = 0, st_constr = 0, st_bound = 0, st_compl = 0, st_kkt = 0, st_sdual = 0, st_sconstr = 0, st_sbound = 0, st_scompl = 0, st_skkt = 0;
   int ev_f = 0, ev_c = 0, ev_g = 0, ev_j = 0, ev_h = 0;
   bool ok() const { return app == Ipopt::Solve_Succeeded; }
   bool okish() const { return app == Ipopt::Solve_Succeeded || app == Ipopt::Solved_To_Acceptable_Level; }
};

class RecTNLP : public Ipopt::TNLP
{
public:
   const Problem& p;
   Pres pres;
   Outcome out;
   bool keep_trace = false;
   std::vector<Event> trace;
   // protocol monitor
   bool have_last = false, last_lam_valid = false;
   Vec last_x, last_lam;
   int faulted = 0;                 ///< number of injected faults so far
   long kindcount[K_COUNT] = {0};
   // behaviour
   std::function<int(int kind, long count, const double* x)> fault;
   std::function<bool(RecTNLP&, const IterInfo&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*)> on_iter;
   std::function<void(RecTNLP&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*)> on_final;
   std::function<void(int kind, const double* x)> on_eval;
   Vec start_x, start_zl, start_zu, start_lam;  ///< override of starting values when nonempty
   bool no_start_z = false, no_start_lam = false;   ///< starting multipliers are refused
   bool give_scaling = false;
   double obj_scaling = 1;
   bool use_x_scaling = false, use_g_scaling = false;
   Vec x_scaling, g_scaling;
   std::vector<int> nonlin_vars;   ///< 0-based
   bool give_nonlin = false;
   bool derivs_forbidden_h = false, derivs_forbidden_g = false, derivs_forbidden_j = false;
   bool corrupt_grad = false, corrupt_jac = false, corrupt_hess = false;
   std::function<void(double*)> mod_grad;
   std::function<void(double*)> mod_jac, mod_hess;
   bool meta = false;

   RecTNLP(const Problem& p_, const Pres& pr) : p(p_), pres(pr) { }
   void viol(const char* key, const std::string& msg) { if( out.viol.size() < 50 ) out.viol.push_back(std::make_pair(std::string(key), msg)); }

   bool get_nlp_info(Ipopt::Index& n, Ipopt::Index& m, Ipopt::Index& nnz_jac_g, Ipopt::Index& nnz_h_lag, IndexStyleEnum& index_style) override;
   bool get_bounds_info(Ipopt::Index n, double* x_l, double* x_u, Ipopt::Index m, double* g_l, double* g_u) override;
   bool get_scaling_parameters(double& obj_scaling, bool& use_x_scaling, Ipopt::Index n, double* x_scaling, bool& use_g_scaling, Ipopt::Index m, double* g_scaling) override;
   bool get_starting_point(Ipopt::Index n, bool init_x, double* x, bool init_z, double* z_L, double* z_U, Ipopt::Index m, bool init_lambda, double* lambda) override;
   bool eval_f(Ipopt::Index n, const double* x, bool new_x, double& obj_value) override;
   bool eval_grad_f(Ipopt::Index n, const double* x, bool new_x, double* grad_f) override;
   bool eval_g(Ipopt::Index n, const double* x, bool new_x, Ipopt::Index m, double* g) override;
   bool eval_jac_g(Ipopt::Index n, const double* x, bool new_x, Ipopt::Index m, Ipopt::Index nele_jac, Ipopt::Index* iRow, Ipopt::Index* jCol, double* values) override;
   bool eval_h(Ipopt::Index n, const double* x, bool new_x, double obj_factor, Ipopt::Index m, const double* lambda, bool new_lambda, Ipopt::Index nele_hess, Ipopt::Index* iRow, Ipopt::Index* jCol, double* values) override;
   void finalize_solution(Ipopt::SolverReturn status, Ipopt::Index n, const double* x, const double* z_L, const double* z_U, Ipopt::Index m, const double* g, const double* lambda, double obj_value, const Ipopt::IpoptData* ip_data, Ipopt::IpoptCalculatedQuantities* ip_cq) override;
   bool intermediate_callback(Ipopt::AlgorithmMode mode, Ipopt::Index iter, double obj_value, double inf_pr, double inf_du, double mu, double d_norm, double regularization_size, double alpha_du, double alpha_pr, Ipopt::Index ls_trials, const Ipopt::IpoptData* ip_data, Ipopt::IpoptCalculatedQuantities* ip_cq) override;
   Ipopt::Index get_number_of_nonlinear_variables() override;
   bool get_list_of_nonlinear_variables(Ipopt::Index num_nonlin_vars, Ipopt::Index* pos_nonlin_vars) override;
   int do_fault(int kind, const double* x);
private:
   void enter(int kind, int n, int m, const double* x, bool new_x, const double* lam, bool new_lam, double objf);
};

/** fill statistics of the application into the outcome */
void grab_stats(Ipopt::IpoptApplication& app, Outcome& o);
/** one full solve with a fresh application object */
Outcome solve(RecTNLP* t, const Opts& o);
Outcome solve(const Problem& p, const Opts& o);

struct KKT
{
   double dual = 0, constr = 0, bound = 0, compl_ = 0;   ///< infinity norms
   Vec r;              ///< gradient of Lagrangian
};
KKT kkt(const Problem& p, const Vec& x, const Vec& lam, const Vec& zl, const Vec& zu);
std::string vs(const Vec& v);
double maxabs(const Vec& v);
double maxdiff(const Vec& a, const Vec& b);
const char* statname(Ipopt::ApplicationReturnStatus s);
bool eqbits(const Vec& a, const Vec& b);
/** smallest singular value lower estimate of the rows in A (k x n), by modified Gram-Schmidt distances */
double gs_min(std::vector<Vec> rows);
/** conditioning of a problem with known solution: x errors are bounded by about cx, multiplier errors by cy times the KKT residual */
void known_cond(const Problem& p, double& cx, double& cy);
/** solve dense square system in place by Gaussian elimination with pivoting; false if singular */
bool dense_solve(std::vector<Vec> A, Vec b, Vec& x);
}
#endif
