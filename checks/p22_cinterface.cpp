// P22: the C interface behaves exactly like the C++ interface (differential test on whole call histories).
#include "anycase.hpp"
#include "IpStdCInterface.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace nlp;
using pbt::Ctx;
typedef Ipopt::IpoptApplication App;
using Ipopt::SmartPtr;

struct Quiet
{
   int fd = -1;
   Quiet()
   {
      if( getenv("NLP_PRINT") )
         return;
      fflush(stdout);
      fd = dup(1);
      int z = open("/dev/null", O_WRONLY);
      dup2(z, 1);
      close(z);
   }
   ~Quiet()
   {
      if( fd < 0 )
         return;
      fflush(stdout);
      dup2(fd, 1);
      close(fd);
   }
};
static void enterdir(Ctx& c)
{
   std::string d = pbt::scratch() + pbt::fmt("/w%d", (int)getpid());
   mkdir(d.c_str(), 0777);
   if( chdir(d.c_str()) != 0 )
      c.discard();
}
struct UD
{
   RecTNLP* t;
};
static int g_wrong_ud = 0;       // a callback got unexpected user data
#ifndef FORTRAN_TWIN
typedef IpoptProblem Handle;
static const bool FORTRAN = false;
static UD* g_cur = nullptr;      // expected user data
static RecTNLP* T(UserDataPtr u)
{
   if( u != (UserDataPtr)g_cur )
   {
      g_wrong_ud++;
      return g_cur->t;
   }
   return ((UD*)u)->t;
}
static bool cb_f(ipindex n, ipnumber* x, bool nx, ipnumber* v, UserDataPtr u) { return T(u)->eval_f(n, x, nx, *v); }
static bool cb_grad(ipindex n, ipnumber* x, bool nx, ipnumber* g, UserDataPtr u) { return T(u)->eval_grad_f(n, x, nx, g); }
static bool cb_g(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* g, UserDataPtr u) { return T(u)->eval_g(n, x, nx, m, g); }
static bool cb_jac(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex k, ipindex* r, ipindex* c, ipnumber* v, UserDataPtr u) { return T(u)->eval_jac_g(n, x, nx, m, k, r, c, v); }
static bool cb_h(ipindex n, ipnumber* x, bool nx, ipnumber of, ipindex m, ipnumber* l, bool nl, ipindex k, ipindex* r, ipindex* c, ipnumber* v, UserDataPtr u)
{
   return T(u)->eval_h(n, x, nx, of, m, l, nl, k, r, c, v);
}
static bool cb_iter(ipindex mode, ipindex it, ipnumber o, ipnumber ip, ipnumber id, ipnumber mu, ipnumber d, ipnumber rg, ipnumber ad, ipnumber ap, ipindex ls, UserDataPtr u)
{
   return T(u)->intermediate_callback((Ipopt::AlgorithmMode)mode, it, o, ip, id, mu, d, rg, ad, ap, ls, nullptr, nullptr);
}
static Handle h_create(int n, double* xl, double* xu, int m, double* gl, double* gu, int nj, int nh, int st, bool f, bool g, bool gr, bool j, bool h)
{
   return CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, nh, st, f ? cb_f : nullptr, g ? cb_g : nullptr, gr ? cb_grad : nullptr, j ? cb_jac : nullptr, h ? cb_h : nullptr);
}
static void h_free(Handle h) { FreeIpoptProblem(h); }
static void h_setcb(Handle h, bool on) { SetIntermediateCallback(h, on ? cb_iter : nullptr); }
static bool h_open(Handle h, const std::string& fn, int lev)
{
   std::vector<char> b(fn.begin(), fn.end());
   b.push_back(0);
   return OpenIpoptOutputFile(h, b.data(), lev);
}
static bool h_scaling(Handle h, double o, double* x, double* g) { return SetIpoptProblemScaling(h, o, x, g); }
static Ipopt::ApplicationReturnStatus h_solve(Handle h, double* x, double* g, double* obj, double* l, double* zl, double* zu, UD* ud)
{
   g_cur = ud;
   return (Ipopt::ApplicationReturnStatus)IpoptSolve(h, x, g, obj, l, zl, zu, ud);
}
static bool h_iterate(Handle h, bool sc, int n, double* x, double* zl, double* zu, int m, double* g, double* l) { return GetIpoptCurrentIterate(h, sc, n, x, zl, zu, m, g, l); }
static bool h_viol(Handle h, bool sc, int n, double* a, double* b, double* c, double* d, double* e, int m, double* f, double* g) { return GetIpoptCurrentViolations(h, sc, n, a, b, c, d, e, m, f, g); }
static unsigned maskfix(unsigned m) { return m; }
/** the C functions take char*, but must not write to it */
static bool h_opt(Handle P, const Opt& o, pbt::Src&, std::string& strange)
{
   std::vector<char> k(o.name.begin(), o.name.end()), v(o.s.begin(), o.s.end());
   k.push_back(0);
   v.push_back(0);
   bool r = o.type == 's' ? AddIpoptStrOption(P, k.data(), v.data()) : o.type == 'n' ? AddIpoptNumOption(P, k.data(), o.d) : AddIpoptIntOption(P, k.data(), o.i);
   if( o.name != k.data() || o.s != v.data() )
      strange = "option text modified";
   return r;
}
#else
// Fortran calling conventions: everything by reference, strings with their length behind the last argument
typedef void* fptr;
typedef ipindex I;
typedef ipnumber D;
typedef fptr Handle;
static const bool FORTRAN = true;
extern "C"
{
   fptr ipcreate_(I*, D*, D*, I*, D*, D*, I*, I*, I*, void (*)(I*, D*, I*, D*, I*, D*, I*), void (*)(I*, D*, I*, I*, D*, I*, D*, I*), void (*)(I*, D*, I*, D*, I*, D*, I*),
                  void (*)(I*, I*, D*, I*, I*, I*, I*, I*, D*, I*, D*, I*), void (*)(I*, I*, D*, I*, D*, I*, D*, I*, I*, I*, I*, D*, I*, D*, I*));
   void ipfree_(fptr*);
   I ipsolve_(fptr*, D*, D*, D*, D*, D*, D*, I*, D*);
   I ipaddstroption_(fptr*, char*, char*, int, int);
   I ipaddnumoption_(fptr*, char*, D*, int);
   I ipaddintoption_(fptr*, char*, I*, int);
   I ipopenoutputfile_(fptr*, char*, I*, int);
   void ipsetcallback_(fptr*, void (*)(I*, I*, D*, D*, D*, D*, D*, D*, D*, D*, I*, I*, D*, I*));
   void ipunsetcallback_(fptr*);
   I ipgetcurriterate_(fptr*, I*, I*, I*, I*, I*, I*, D*, D*, D*, I*, D*, D*);
   I ipgetcurrviolations_(fptr*, I*, I*, I*, I*, I*, I*, D*, D*, D*, D*, D*, I*, D*, D*);
   I ipsetproblemscaling_(fptr*, D*, D*, D*);
}
static const I WRONG[] = {1, -1, 7, 256, 65536};   // error indicators used by the callbacks
static long g_ncb = 0;
static struct
{
   UD* ud;
   I idat[8];
   D ddat[8];
   long serial;
} g_f;
static RecTNLP* T(I* idat, D* ddat, I* err)
{
   if( idat != g_f.idat || ddat != g_f.ddat || idat[0] != (I)g_f.serial || ddat[7] != (D)g_f.serial || *err != 0 )
      g_wrong_ud++;
   // work arrays belong to the user: what is written stays there
   g_f.serial++;
   idat[0] = (I)g_f.serial;
   ddat[7] = (D)g_f.serial;
   return g_f.ud->t;
}
static void fin(bool ok, I* err)
{
   if( !ok )
      *err = WRONG[g_ncb++ % 5];
}
static void cb_f(I* n, D* x, I* nx, D* v, I* idat, D* ddat, I* err) { fin(T(idat, ddat, err)->eval_f(*n, x, *nx != 0, *v), err); }
static void cb_grad(I* n, D* x, I* nx, D* g, I* idat, D* ddat, I* err) { fin(T(idat, ddat, err)->eval_grad_f(*n, x, *nx != 0, g), err); }
static void cb_g(I* n, D* x, I* nx, I* m, D* g, I* idat, D* ddat, I* err) { fin(T(idat, ddat, err)->eval_g(*n, x, *nx != 0, *m, g), err); }
static void cb_jac(I* task, I* n, D* x, I* nx, I* m, I* nz, I* r, I* c, D* v, I* idat, D* ddat, I* err)
{
   RecTNLP* t = T(idat, ddat, err);
   if( (*task == 0) != (v == nullptr) || (*task != 0 && *task != 1) )
      t->viol("task", "wrong TASK in Jacobian callback");
   fin(t->eval_jac_g(*n, x, *nx != 0, *m, *nz, r, c, v), err);
}
static void cb_h(I* task, I* n, D* x, I* nx, D* of, I* m, D* l, I* nl, I* nz, I* r, I* c, D* v, I* idat, D* ddat, I* err)
{
   RecTNLP* t = T(idat, ddat, err);
   if( (*task == 0) != (v == nullptr) || (*task != 0 && *task != 1) )
      t->viol("task", "wrong TASK in Hessian callback");
   fin(t->eval_h(*n, x, *nx != 0, *of, *m, l, *nl != 0, *nz, r, c, v), err);
}
static void cb_iter(I* mode, I* it, D* o, D* ip, D* id, D* mu, D* d, D* rg, D* ad, D* ap, I* ls, I* idat, D* ddat, I* stop)
{
   fin(T(idat, ddat, stop)->intermediate_callback((Ipopt::AlgorithmMode) * mode, *it, *o, *ip, *id, *mu, *d, *rg, *ad, *ap, *ls, nullptr, nullptr), stop);
}
static Handle h_create(int n, double* xl, double* xu, int m, double* gl, double* gu, int nj, int nh, int st, bool, bool, bool, bool, bool)
{
   I a[5] = {n, m, nj, nh, st};
   Handle h = ipcreate_(&a[0], xl, xu, &a[1], gl, gu, &a[2], &a[3], &a[4], cb_f, cb_g, cb_grad, cb_jac, cb_h);
   for( int k = 0; k < 5; ++k )
      a[k] = -99;
   return h;
}
static void h_free(Handle h)
{
   ipfree_(&h);
   if( h != nullptr )
      g_wrong_ud++;
}
static void h_setcb(Handle h, bool on)
{
   if( on )
      ipsetcallback_(&h, cb_iter);
   else
      ipunsetcallback_(&h);
}
/** text in a Fortran character variable: padded with blanks, followed by something else, no terminator */
struct FStr
{
   std::vector<char> b;
   int len;
   std::string orig;
   FStr(const std::string& v, int pad)
   {
      b.assign(v.begin(), v.end());
      b.insert(b.end(), (size_t)pad, ' ');
      len = (int)b.size();
      for( const char* q = "x yes 17"; *q; ++q )
         b.push_back(*q);
      orig.assign(b.begin(), b.end());
   }
   bool same() const { return orig == std::string(b.begin(), b.end()); }
};
static int pad(pbt::Src& s) { return s.flip(0.3) ? 0 : s.integer(1, 40); }
static pbt::Src* g_src = nullptr;
static bool h_open(Handle h, const std::string& fn, int lev)
{
   FStr f(fn, pad(*g_src));
   I l = lev;
   return ipopenoutputfile_(&h, f.b.data(), &l, f.len) == 0;
}
static bool h_scaling(Handle h, double o, double* x, double* g) { return ipsetproblemscaling_(&h, &o, x, g) == 0; }
static Ipopt::ApplicationReturnStatus h_solve(Handle h, double* x, double* g, double* obj, double* l, double* zl, double* zu, UD* ud)
{
   g_f.ud = ud;
   g_f.serial += 11;
   g_f.idat[0] = (I)g_f.serial;
   g_f.ddat[7] = (D)g_f.serial;
   Handle hh = h;
   Ipopt::ApplicationReturnStatus r = (Ipopt::ApplicationReturnStatus)ipsolve_(&hh, x, g, obj, l, zl, zu, g_f.idat, g_f.ddat);
   if( hh != h || g_f.idat[0] != (I)g_f.serial || g_f.ddat[7] != (D)g_f.serial )
      g_wrong_ud++;
   return r;
}
static bool h_iterate(Handle h, bool sc, int n, double* x, double* zl, double* zu, int m, double* g, double* l)
{
   static double dummy[64];
   I a[7] = {sc ? 3 : 0, x != nullptr, zl != nullptr ? -1 : 0, g != nullptr, l != nullptr ? 2 : 0, n, m};
   return ipgetcurriterate_(&h, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], x ? x : dummy, zl ? zl : dummy, zu ? zu : dummy, &a[6], g ? g : dummy, l ? l : dummy) == 0;
}
static bool h_viol(Handle h, bool sc, int n, double* xl, double* xu, double* cl, double* cu, double* gl, int m, double* v, double* cg)
{
   static double dummy[64];
   I a[7] = {sc, xl != nullptr, cl != nullptr ? 5 : 0, gl != nullptr, v != nullptr, n, m};
   return ipgetcurrviolations_(&h, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], xl ? xl : dummy, xu ? xu : dummy, cl ? cl : dummy, cu ? cu : dummy, gl ? gl : dummy, &a[6], v ? v : dummy, cg ? cg : dummy) == 0;
}
/** arrays that can only be asked for together */
static unsigned maskfix(unsigned m)
{
   auto tie = [&](int a, int b)
   {
      m = (m & ~(1u << b)) | ((m >> a & 1u) << b);
   };
   tie(1, 2);
   tie(5, 6);
   tie(7, 8);
   tie(7, 11);
   return m;
}
static bool h_opt(Handle h, const Opt& o, pbt::Src& s, std::string& strange)
{
   FStr k(o.name, pad(s)), v(o.s, pad(s));
   D d = o.d;
   I i = o.i;
   bool r = (o.type == 's' ? ipaddstroption_(&h, k.b.data(), v.b.data(), k.len, v.len) : o.type == 'n' ? ipaddnumoption_(&h, k.b.data(), &d, k.len) : ipaddintoption_(&h, k.b.data(), &i, k.len)) == 0;
   if( !k.same() || !v.same() )
      strange = "option text modified";
   return r;
}
#endif

struct QRes
{
   bool ok1, ok2;
   std::vector<Vec> v;
};
static const double CAN = -977.125;
/** the mask decides which arrays are asked for; buffers carry a canary at the end */
template<class F1, class F2> static QRes query(unsigned mask, int n, int m, F1 it, F2 vi)
{
   QRes r;
   r.v.resize(12);
   double* q[12];
   for( int k = 0; k < 12; ++k )
   {
      bool con = k == 3 || k == 4 || k == 10 || k == 11;
      r.v[k].assign((size_t)((con ? m : n) + 1), CAN);
      q[k] = (mask >> k & 1) ? r.v[k].data() : nullptr;
   }
   // sizes may be arbitrary if nothing of that kind is asked for
   int n1 = q[0] || q[1] || q[2] ? n : 12345, m1 = q[3] || q[4] ? m : -3;
   int n2 = q[5] || q[6] || q[7] || q[8] || q[9] ? n : 4321, m2 = q[10] || q[11] ? m : 99;
   r.ok1 = it((mask >> 12 & 1) != 0, n1, q[0], q[1], q[2], m1, q[3], q[4]);
   r.ok2 = vi((mask >> 13 & 1) != 0, n2, q[5], q[6], q[7], q[8], q[9], m2, q[10], q[11]);
   return r;
}
static bool sameiter(const IterInfo& a, const IterInfo& b)
{
   double u[9] = {a.obj, a.inf_pr, a.inf_du, a.mu, a.d_norm, a.reg, a.alpha_du, a.alpha_pr, (double)a.ls};
   double v[9] = {b.obj, b.inf_pr, b.inf_du, b.mu, b.d_norm, b.reg, b.alpha_du, b.alpha_pr, (double)b.ls};
   return a.mode == b.mode && a.iter == b.iter && memcmp(u, v, sizeof u) == 0;
}
static bool sameev(const Event& a, const Event& b, bool flags)
{
   return a.kind == b.kind && (!flags || a.new_x == b.new_x) && a.new_lam == b.new_lam && (memcmp(&a.objf, &b.objf, sizeof(double)) == 0) && eqbits(a.x, b.x) && eqbits(a.lam, b.lam) && a.ret == b.ret;
}
static std::string cleanfile(const std::string& fn)
{
   std::ifstream f(fn.c_str());
   std::string l, r;
   while( std::getline(f, l) )
      if( l.find("econds") == std::string::npos && l.find("CPU") == std::string::npos && l.find("wall") == std::string::npos )
         r += l + "\n";
   return r;
}
static bool addopt(App& a, const Opt& o)
{
   return o.type == 's' ? a.Options()->SetStringValue(o.name, o.s) : o.type == 'n' ? a.Options()->SetNumericValue(o.name, o.d) : a.Options()->SetIntegerValue(o.name, o.i);
}
/** arguments of CreateIpoptProblem in caller's storage */
struct Args
{
   Vec xl, xu, gl, gu;
   int n, m, nj, nh, style;
   bool nog = false, noj = false;    ///< callbacks given although there are no constraints
   Handle create() { return h_create(n, xl.data(), xu.data(), m, gl.data(), gu.data(), nj, nh, style, true, m > 0 || nog, true, m > 0 || noj, true); }
   explicit Args(const Any& a) : xl(a.p.xl), xu(a.p.xu), gl(a.p.gl), gu(a.p.gu), n(a.p.n), m(a.p.m), nj((int)a.pres.jac.size()), nh((int)a.pres.hess.size()), style(a.pres.fortran ? 1 : 0) { }
};
static Opt rand_bad_option(pbt::Src& s)
{
   switch( s.below(8) )
   {
      case 0: return {'s', "no_such_option", "yes", 0, 0};
      case 1: return {'n', "no_such_option", "", 1.5, 0};
      case 2: return {'i', "no_such_option", "", 0, 3};
      case 3: return {'n', "tol", "", -1., 0};
      case 4: return {'i', "max_iter", "", 0, -5};
      case 5: return {'s', "mu_strategy", "sometimes", 0, 0};
      case 6: return {'i', "tol", "", 0, 1};
      default: return {'s', "max_iter", "17x", 0, 0};
   }
}

// ---------------------------------------------------------------------------------------------------- histories
static void twin(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_ALL & ~AF_HINTS, 0.06);
   if( a.p.m > 0 && a.pres.jac.empty() )
      c.discard();
   a.o.S("sb", "yes");
   c.desc << a.show();
   Args ar(a);
   int n = ar.n, m = ar.m;
   if( m == 0 )
   {
      ar.nog = FORTRAN || s.flip();
      ar.noj = FORTRAN || s.flip();
   }
   Quiet quiet;
   enterdir(c);
#ifdef FORTRAN_TWIN
   g_src = &s;
#endif
   unlink("ipopt.opt");
   if( s.flip(0.1) )
   {
      std::ofstream f("ipopt.opt");
      if( s.flip(0.7) )
         f << "# options file\nmax_iter 3\ntol 1e-5\n";
      else
         f << "max_iter -3\n";
      c.desc << " with options file\n";
   }
   Vec sxl = ar.xl, sxu = ar.xu, sgl = ar.gl, sgu = ar.gu;
   Handle P = ar.create();
   PBT_CHECK(c, P != nullptr, "create-refused", "CreateIpoptProblem refused a valid problem");
   PBT_CHECK(c, eqbits(sxl, ar.xl) && eqbits(sxu, ar.xu) && eqbits(sgl, ar.gl) && eqbits(sgu, ar.gu), "create-writes", "CreateIpoptProblem modified the caller's arrays");
   for( Vec* v : {&ar.xl, &ar.xu, &ar.gl, &ar.gu} )
      for( double& d : *v )
         d = 12345;
   struct Free { Handle p; ~Free() { if( p ) h_free(p); } } fr{P};
   SmartPtr<App> app = new App();
   app->RethrowNonIpoptException(false);
   std::string strange;
   auto both = [&](const Opt& o)
   {
      bool r1 = h_opt(P, o, s, strange), r2 = addopt(*app, o);
      PBT_CHECK(c, r1 == r2, "option-return", "option %s: C interface returns %d, C++ %d", o.name.c_str(), r1, r2);
      PBT_CHECK(c, strange.empty(), "option-writes", "%s", strange.c_str());
   };
   bool file = false;
   auto openfile = [&]()
   {
      unlink("c.out");
      unlink("cpp.out");
      int lev = s.integer(0, 7);
      bool badname = s.flip(0.2);
      bool r1 = h_open(P, badname ? "/nonexistent/dir/c.out" : "c.out", lev);
      bool r2 = app->OpenOutputFile(badname ? "/nonexistent/dir/c.out" : "cpp.out", (Ipopt::EJournalLevel)lev);
      PBT_CHECK(c, r1 == r2, "openfile-return", "OpenIpoptOutputFile returns %d, OpenOutputFile %d", r1, r2);
      file = file || (r1 && !badname);
      c.desc << pbt::fmt(" output file level %d%s\n", lev, badname ? " (impossible name)" : "");
   };
   bool filefirst = s.flip(0.12);
   if( filefirst && s.flip() )
      openfile(), filefirst = false;
   for( auto& o : a.o.v )
   {
      if( s.flip(0.02) )
         both(rand_bad_option(s));
      both(o);
   }
   if( filefirst )
      openfile();
   // outside of a solve nothing is available
   auto notavail = [&](const char* when)
   {
      Vec b((size_t)(n + m + 1), CAN);
      bool r1 = h_iterate(P, false, n, b.data(), nullptr, nullptr, m, nullptr, nullptr);
      bool r2 = h_viol(P, false, n, b.data(), nullptr, nullptr, nullptr, nullptr, m, nullptr, nullptr);
      bool clean = true;
      for( double d : b )
         clean = clean && d == CAN;
      PBT_CHECK(c, !r1 && !r2 && clean, "available-outside", "current iterate/violations available %s", when);
   };
   notavail("before the first solve");
   int rounds = s.weighted({0, 5, 3, 1});
   Vec x = a.p.x0, gA((size_t)m + 1), lam((size_t)m + 1), zl((size_t)n + 1), zu((size_t)n + 1);
   bool cb = true, nullx = false;
   long events = 0;
   int warmflag = a.warm;
   bool scal = false;
   double so = 1;
   bool sux = false, sug = false;
   Vec sx, sg;
   // scaling of the generated case is handed over with SetIpoptProblemScaling
   {
      SmartPtr<RecTNLP> t = a.make();
      if( t->give_scaling )
      {
         scal = true;
         so = t->obj_scaling;
         sux = FORTRAN || t->use_x_scaling;
         sug = FORTRAN || t->use_g_scaling;
         sx = t->x_scaling;
         sg = t->g_scaling;
      }
   }
   if( !scal && s.flip(0.2) )
   {
      // not to be used unless nlp_scaling_method=user-scaling
      scal = true;
      so = s.logreal(0.1, 10);
      sux = FORTRAN || s.flip();
      sug = FORTRAN || s.flip();
      for( int i = 0; i < n; ++i )
         sx.push_back(s.logreal(0.1, 10));
      for( int j = 0; j < m; ++j )
         sg.push_back(s.logreal(0.1, 10));
   }
   bool setscal = scal;
   for( int r = 0; r < rounds; ++r )
   {
      if( r > 0 )
      {
         if( s.flip(0.5) )
         {
            Opt o[] = {{'n', "tol", "", 1e-6, 0}, {'i', "max_iter", "", 0, 4}, {'s', "mu_strategy", "adaptive", 0, 0}, {'s', "mu_strategy", "monotone", 0, 0}, {'s', "warm_start_init_point", "yes", 0, 0}, {'s', "warm_start_init_point", "no", 0, 0}, {'n', "bound_push", "", 1e-3, 0}, {'s', "hessian_approximation", "limited-memory", 0, 0}, {'s', "nlp_scaling_method", "none", 0, 0}, {'s', "nlp_scaling_method", "user-scaling", 0, 0}, {'s', "fixed_variable_treatment", "make_constraint", 0, 0}};
            Opt q = s.flip(0.15) ? rand_bad_option(s) : o[s.below(sizeof o / sizeof o[0])];
            both(q);
            c.desc << " round " << r << ": option " << q.name << " " << q.s << pbt::fmt(" %g %d\n", q.d, q.i);
            if( q.name == "warm_start_init_point" )
               warmflag = q.s == "yes";
            if( q.name == "nlp_scaling_method" && q.s == "user-scaling" && !scal )
            {
               scal = setscal = true;
               sx.assign(n, 2.);
               sg.assign(m, 3.);
            }
         }
         if( s.flip(0.3) )
         {
            scal = setscal = true;
            so = s.logreal(0.1, 10);
            sux = FORTRAN || s.flip();
            sug = FORTRAN || s.flip();
            sx.clear();
            sg.clear();
            for( int i = 0; i < n; ++i )
               sx.push_back(s.logreal(0.1, 10));
            for( int j = 0; j < m; ++j )
               sg.push_back(s.logreal(0.1, 10));
         }
         if( s.flip(0.3) )
            x = a.p.x0;
         if( s.flip(0.1) )
            openfile();
      }
      if( setscal )
      {
         Vec qx = sx, qg = sg;
         bool ok = h_scaling(P, so, sux ? qx.data() : nullptr, sug && m > 0 ? qg.data() : nullptr);
         PBT_CHECK(c, ok, "setscaling", "SetIpoptProblemScaling failed");
         PBT_CHECK(c, eqbits(qx, sx) && eqbits(qg, sg), "setscaling-writes", "SetIpoptProblemScaling modified the caller's arrays");
         for( double& d : qx )
            d = 1e30;
         for( double& d : qg )
            d = 1e30;
         setscal = false;
      }
      if( s.flip(r == 0 ? 0.85 : 0.3) )
      {
         cb = r == 0 ? true : !cb;
         h_setcb(P, cb);
      }
      else if( r == 0 )
         cb = false;
      SmartPtr<RecTNLP> t1 = a.make(), t2 = a.make();
      // arguments of IpoptSolve
      double pn = FORTRAN ? 0 : 0.2;
      bool ng = s.flip(pn), nobj = s.flip(pn), nlam = s.flip(pn), nzl = s.flip(pn), nzu = s.flip(pn), nx = s.flip(pn / 10);
      nullx = nullx || nx;

      if( r == 0 )
      {
         // starting values chosen by the case, or rubbish that must be ignored
         for( int i = 0; i < n; ++i )
         {
            zl[i] = t1->start_zl.empty() ? (warmflag ? 1. : 1e77) : t1->start_zl[i];
            zu[i] = t1->start_zu.empty() ? (warmflag ? 1. : 1e77) : t1->start_zu[i];
         }
         for( int j = 0; j < m; ++j )
            lam[j] = t1->start_lam.empty() ? (warmflag ? 0. : 1e77) : t1->start_lam[j];
      }
      else if( s.flip(0.3) )
         for( int i = 0; i < n; ++i )
            zl[i] = std::fabs(s.nice(0, 2)), zu[i] = std::fabs(s.nice(0, 2));
      x.resize((size_t)n + 1);
      x[n] = zl[n] = zu[n] = lam[m] = gA[m] = CAN;
      for( int j = 0; j < m; ++j )
         gA[j] = CAN;
      double obj = CAN;
      for( RecTNLP* t : {GetRawPtr(t1), GetRawPtr(t2)} )
      {
         t->keep_trace = true;
         t->give_scaling = true;
         t->obj_scaling = so;
         t->use_x_scaling = scal && sux;
         t->use_g_scaling = scal && sug && m > 0;
         t->x_scaling = sx;
         t->g_scaling = sg;
         t->start_x.assign(x.begin(), x.begin() + n);
         t->start_zl.assign(zl.begin(), zl.begin() + n);
         t->start_zu.assign(zu.begin(), zu.begin() + n);
         t->start_lam.assign(lam.begin(), lam.begin() + m);
      }
      // a C user without multipliers to offer refuses a warm start
      t1->no_start_z = nzl || nzu;
      t1->no_start_lam = nlam && m > 0;
      bool ask = s.flip(0.5);
      unsigned mask0 = (unsigned)s.below(1u << 14);
      std::vector<QRes> q1, q2;
      UD ud = {GetRawPtr(t2)};
      if( cb )
      {
         auto pr1 = t1->on_iter, pr2 = t2->on_iter;
         t1->on_iter = [&, pr1](RecTNLP & t, const IterInfo & i, const Ipopt::IpoptData * d, Ipopt::IpoptCalculatedQuantities * q)
         {
            if( ask )
               q1.push_back(query(maskfix(mask0 ^ (unsigned)(i.iter * 2654435761u >> 15)), n, m, [&](bool sc, int nn, double * b1, double * b2, double * b3, int mm, double * b4, double * b5)
            {
               return t.get_curr_iterate(d, q, sc, nn, b1, b2, b3, mm, b4, b5);
            }, [&](bool sc, int nn, double * b1, double * b2, double * b3, double * b4, double * b5, int mm, double * b6, double * b7)
            {
               return t.get_curr_violations(d, q, sc, nn, b1, b2, b3, b4, b5, mm, b6, b7);
            }));
            return pr1 ? pr1(t, i, d, q) : true;
         };
         t2->on_iter = [&, pr2](RecTNLP & t, const IterInfo & i, const Ipopt::IpoptData * d, Ipopt::IpoptCalculatedQuantities * q)
         {
            if( ask )
               q2.push_back(query(maskfix(mask0 ^ (unsigned)(i.iter * 2654435761u >> 15)), n, m, [&](bool sc, int nn, double * b1, double * b2, double * b3, int mm, double * b4, double * b5)
            {
               return h_iterate(P, sc, nn, b1, b2, b3, mm, b4, b5);
            }, [&](bool sc, int nn, double * b1, double * b2, double * b3, double * b4, double * b5, int mm, double * b6, double * b7)
            {
               return h_viol(P, sc, nn, b1, b2, b3, b4, b5, mm, b6, b7);
            }));
            return pr2 ? pr2(t, i, d, q) : true;
         };
      }
      else
         t1->on_iter = nullptr;
      int availeval = 0;
      if( !cb )
         t2->on_eval = [&](int, const double*)
      {
         Vec b((size_t)n);
         if( h_iterate(P, false, n, b.data(), nullptr, nullptr, m, nullptr, nullptr) )
            availeval++;
      };
      Vec bx = x, bl = lam, bzl = zl, bzu = zu, bg = gA;
      g_wrong_ud = 0;
      Ipopt::ApplicationReturnStatus st2 = h_solve(P, nx ? nullptr : x.data(), ng ? nullptr : gA.data(), nobj ? nullptr : &obj, nlam ? nullptr : lam.data(), nzl ? nullptr : zl.data(), nzu ? nullptr : zu.data(), &ud);
      PBT_CHECK(c, g_wrong_ud == 0, "user-data", "a callback got a wrong user data pointer");
      PBT_CHECK(c, availeval == 0, "available-in-eval", "current iterate available in an evaluation callback");
      notavail("after a solve");
      Ipopt::ApplicationReturnStatus st1 = app->Initialize();
      if( st1 == Ipopt::Solve_Succeeded )
      {
         if( nx )
            st1 = Ipopt::Invalid_Problem_Definition;
         else
            st1 = app->OptimizeTNLP(GetRawPtr(t1));
      }
      c.label(std::string("round-") + statname(st1));
      PBT_CHECK(c, st1 == st2, "status", "round %d: C interface returns %s, C++ %s", r, statname(st2), statname(st1));
      if( !t2->out.viol.empty() && t1->out.viol.empty() )
         c.fail("protocol", "round %d: %s", r, t2->out.viol[0].second.c_str());
      // same calls (constraint callbacks without constraints may have been left out)
      if( m == 0 )
         for( RecTNLP* t : {GetRawPtr(t1), GetRawPtr(t2)} )
            t->trace.erase(std::remove_if(t->trace.begin(), t->trace.end(), [&](const Event & e) { return (e.kind == K_G && !ar.nog) || (e.kind == K_JAC && !ar.noj); }), t->trace.end());
      for( size_t k = 0; k < std::min(t1->trace.size(), t2->trace.size()); ++k )
         PBT_CHECK(c, sameev(t1->trace[k], t2->trace[k], m > 0 || (ar.nog && ar.noj)), "calls", "round %d: call %d differs: C++ %s(%s new_x=%d), C %s(%s new_x=%d)", r, (int)k, kindname[t1->trace[k].kind], vs(t1->trace[k].x).c_str(),
                   t1->trace[k].new_x, kindname[t2->trace[k].kind], vs(t2->trace[k].x).c_str(), t2->trace[k].new_x);
      PBT_CHECK(c, t1->trace.size() == t2->trace.size(), "calls", "round %d: %d calls in C++, %d in C", r, (int)t1->trace.size(), (int)t2->trace.size());
      PBT_CHECK(c, (m == 0 || t1->out.calls[K_JACS] == t2->out.calls[K_JACS]) && t1->out.calls[K_HESSS] == t2->out.calls[K_HESSS], "calls-structure", "round %d: different number of structure requests", r);
      events += (long)t1->trace.size();
      if( cb )
      {
         PBT_CHECK(c, t1->out.iters.size() == t2->out.iters.size(), "reports", "round %d: %d reports in C++, %d in C", r, (int)t1->out.iters.size(), (int)t2->out.iters.size());
         for( size_t k = 0; k < t1->out.iters.size(); ++k )
            PBT_CHECK(c, sameiter(t1->out.iters[k], t2->out.iters[k]), "reports", "round %d: iteration report %d differs", r, (int)k);
         PBT_CHECK(c, q1.size() == q2.size(), "queries", "number of queries differs");
         for( size_t k = 0; k < q1.size(); ++k )
         {
            PBT_CHECK(c, q1[k].ok1 == q2[k].ok1 && q1[k].ok2 == q2[k].ok2, "queries", "round %d: report %d: C++ query returns %d %d, C %d %d", r, (int)k, q1[k].ok1, q1[k].ok2, q2[k].ok1, q2[k].ok2);
            for( int z = 0; z < 12; ++z )
               PBT_CHECK(c, eqbits(q1[k].v[z], q2[k].v[z]), "queries", "round %d: report %d: array %d: C++ %s C %s", r, (int)k, z, vs(q1[k].v[z]).c_str(), vs(q2[k].v[z]).c_str());
         }
      }
      else
         PBT_CHECK(c, t2->out.iters.empty(), "reports", "intermediate callback called although disabled");
      // results
      Vec ex = bx, el = bl, ezl = bzl, ezu = bzu, eg = bg;
      double eobj = CAN;
      if( t1->out.nfinal > 0 )
      {
         std::copy(t1->out.x.begin(), t1->out.x.end(), ex.begin());
         if( !nlam )
            std::copy(t1->out.lam.begin(), t1->out.lam.end(), el.begin());
         if( !nzl )
            std::copy(t1->out.zl.begin(), t1->out.zl.end(), ezl.begin());
         if( !nzu )
            std::copy(t1->out.zu.begin(), t1->out.zu.end(), ezu.begin());
         if( !ng )
            std::copy(t1->out.g.begin(), t1->out.g.end(), eg.begin());
         if( !nobj )
            eobj = t1->out.obj;
         c.nontrivial = t1->out.iters.size() > 1 || (!cb && events > 10);
      }
      PBT_CHECK(c, eqbits(ex, x), "result-x", "round %d (%s): x expected %s got %s", r, statname(st1), vs(ex).c_str(), vs(x).c_str());
      PBT_CHECK(c, eqbits(el, lam), "result-lam", "round %d (%s): mult_g expected %s got %s", r, statname(st1), vs(el).c_str(), vs(lam).c_str());
      PBT_CHECK(c, eqbits(ezl, zl), "result-zl", "round %d (%s): mult_x_L expected %s got %s", r, statname(st1), vs(ezl).c_str(), vs(zl).c_str());
      PBT_CHECK(c, eqbits(ezu, zu), "result-zu", "round %d (%s): mult_x_U expected %s got %s", r, statname(st1), vs(ezu).c_str(), vs(zu).c_str());
      PBT_CHECK(c, eqbits(eg, gA), "result-g", "round %d (%s): g expected %s got %s", r, statname(st1), vs(eg).c_str(), vs(gA).c_str());
      PBT_CHECK(c, memcmp(&eobj, &obj, sizeof obj) == 0, "result-obj", "round %d (%s): obj_val expected %g got %g", r, statname(st1), eobj, obj);
      x.resize((size_t)n);
      bool finite = true;
      for( Vec* v : {&x, &lam, &zl, &zu} )
         for( double d : *v )
            finite = finite && std::isfinite(d);
      if( !finite )
         break;
   }
   if( file )
   {
      // close both files
      c.label("output-file");
      fr.p = nullptr;
      h_free(P);
      app = nullptr;
      std::string f1 = cleanfile("cpp.out"), f2 = cleanfile("c.out");
      if( f1 != f2 && !nullx )
      {
         size_t k = 0;
         while( k < f1.size() && k < f2.size() && f1[k] == f2[k] )
            ++k;
         c.fail("output-file", "output files differ at byte %d: C++ '%s' C '%s'", (int)k, f1.substr(k, 60).c_str(), f2.substr(k, 60).c_str());
      }
   }
}

// ---------------------------------------------------------------------------------------------------- creation
static void create(Ctx& c)
{
   pbt::Src& s = c.src;
   Any a;
   gen_any(c, a, AF_SMALL | AF_NOMASK | AF_CONVEXONLY, 0);
   if( a.p.m > 0 && a.pres.jac.empty() )
      c.discard();
   c.desc << a.show();
   Args ar(a);
   int n = ar.n, m = ar.m;
   Quiet quiet;
   enterdir(c);
   unlink("ipopt.opt");
   double* xl = ar.xl.data(), *xu = ar.xu.data(), *gl = ar.gl.data(), *gu = ar.gu.data();
   if( m == 0 && s.flip() )
      gl = gu = nullptr;
   bool f = true, gr = true, g = true, j = true, h = true;
   int nn = n, mm = m, nj = ar.nj, nh = ar.nh, st = ar.style;
   int what = s.integer(0, 14);
   bool refuse = true, nosolve = false;
   switch( what )
   {
      case 0: nn = -s.integer(0, 5); break;
      case 1: mm = -s.integer(1, 5); break;
      case 2: xl = nullptr; break;
      case 3: xu = nullptr; break;
      case 4: gl = nullptr; refuse = m > 0; break;
      case 5: gu = nullptr; refuse = m > 0; break;
      case 6: nj = -s.integer(1, 5); break;
      case 7: nh = -s.integer(1, 5); break;
      case 8: if( FORTRAN ) c.discard(); f = false; break;
      case 9: if( FORTRAN ) c.discard(); gr = false; break;
      case 10: if( FORTRAN ) c.discard(); g = false; refuse = m > 0; break;
      case 11: if( FORTRAN ) c.discard(); j = false; refuse = m > 0; break;
      case 12: if( m > 0 ) c.discard(); nj = s.integer(1, 5); break;
      case 13: st = s.flip() ? 2 : -1; refuse = false; nosolve = true; break;
      case 14: if( FORTRAN ) c.discard(); h = false; refuse = false; nosolve = true; break;
   }
   c.desc << " corruption " << what << "\n";
   c.label(pbt::fmt("corruption-%d", what));
   c.nontrivial = true;
   Handle P = h_create(nn, xl, xu, mm, gl, gu, nj, nh, st, f, g, gr, j, h);
   if( refuse )
   {
      if( P )
         h_free(P);
      PBT_CHECK(c, P == nullptr, "invalid-accepted", "CreateIpoptProblem accepted invalid arguments (%d)", what);
      return;
   }
   if( P == nullptr )
   {
      PBT_CHECK(c, nosolve, "create-refused", "CreateIpoptProblem refused a valid problem");
      return;
   }
   struct Free { Handle p; ~Free() { if( p ) h_free(p); } } fr{P};
   std::string dummy;
   for( auto& o : a.o.v )
      h_opt(P, o, s, dummy);
   bool lm = what == 14 && s.flip();
   if( lm )
      h_opt(P, {'s', "hessian_approximation", "limited-memory", 0, 0}, s, dummy);
   SmartPtr<RecTNLP> t = a.make(), t1 = a.make();
   Vec x = a.p.x0, og(m + 1), ol(m + 1), oz(n + 1), ou(n + 1);
   double obj;
   UD ud = {GetRawPtr(t)};
   Ipopt::ApplicationReturnStatus r = h_solve(P, x.data(), nullptr, nullptr, nullptr, nullptr, nullptr, &ud);
   if( nosolve && !lm )
   {
      PBT_CHECK(c, r == Ipopt::Invalid_Problem_Definition || r == Ipopt::Invalid_Option, "invalid-solved", "IpoptSolve with invalid arguments (%d) returned %s", what, statname(r));
      PBT_CHECK(c, eqbits(x, a.p.x0), "invalid-writes", "x modified although the problem was refused");
   }
   else if( !nosolve )
   {
      Outcome o = solve(GetRawPtr(t1), a.o);
      PBT_CHECK(c, o.app == r, "status", "C interface returns %s, C++ %s", statname(r), statname(o.app));
      PBT_CHECK(c, o.nfinal == 0 || eqbits(o.x, x), "result-x", "x differs");
   }
}

int main(int argc, char** argv)
{
   pbt::Check k = {FORTRAN ? "P23" : "P22", "both interfaces ran at least one iteration on the generated history (creation facet: every case)", {{"twin", twin, 5000, 100000}, {"create", create, 600, 6000}}};
   return pbt::run_main(argc, argv, k);
}
