// P13: solves are deterministic and isolated from each other.
#include "anycase.hpp"
#include <malloc.h>
#include <atomic>
#include <cstring>
#include <new>
#include <thread>
#include <condition_variable>
#include <mutex>
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

// all memory from new is filled with a pattern (0: left alone)
static std::atomic<int> g_fill{0};
static void* filled(size_t n)
{
   void* p = malloc(n ? n : 1);
   if( !p )
      throw std::bad_alloc();
   int f = g_fill;
   if( f )
      memset(p, f, n);
   return p;
}
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static bool same(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) : (a != a && b != b); }
static bool same(const Vec& a, const Vec& b)
{
   if( a.size() != b.size() )
      return false;
   for( size_t i = 0; i < a.size(); ++i )
      if( !same(a[i], b[i]) )
         return false;
   return true;
}
struct Run
{
   Outcome r;
   std::vector<Event> tr;
};
static std::string differ(const Run& a, const Run& b)
{
   for( size_t k = 0; k < std::min(a.tr.size(), b.tr.size()); ++k )
   {
      const Event& u = a.tr[k], &v = b.tr[k];
      if( u.kind != v.kind )
         return pbt::fmt("call %d is %s in one run and %s in the other", (int)k, kindname[u.kind], kindname[v.kind]);
      if( u.new_x != v.new_x || u.new_lam != v.new_lam || u.ret != v.ret || !same(u.objf, v.objf) || !same(u.x, v.x) || !same(u.lam, v.lam) )
         return pbt::fmt("call %d (%s) has different arguments: x=%s versus x=%s", (int)k, kindname[u.kind], vs(u.x).c_str(), vs(v.x).c_str());
   }
   if( a.tr.size() != b.tr.size() )
      return pbt::fmt("%d calls versus %d calls", (int)a.tr.size(), (int)b.tr.size());
   const Outcome& r = a.r, &q = b.r;
   if( r.app != q.app )
      return pbt::fmt("status %s versus %s", statname(r.app), statname(q.app));
   if( r.iters.size() != q.iters.size() )
      return pbt::fmt("%d versus %d reports", (int)r.iters.size(), (int)q.iters.size());
   for( size_t k = 0; k < r.iters.size(); ++k )
   {
      const IterInfo& u = r.iters[k], &v = q.iters[k];
      if( u.mode != v.mode || u.iter != v.iter || !same(u.obj, v.obj) || !same(u.inf_pr, v.inf_pr) || !same(u.inf_du, v.inf_du) || !same(u.mu, v.mu) || !same(u.d_norm, v.d_norm) || !same(u.reg, v.reg) || !same(u.alpha_du, v.alpha_du) || !same(u.alpha_pr, v.alpha_pr) || u.ls != v.ls )
         return pbt::fmt("report %d: iter %d/%d obj %.17g/%.17g inf_pr %.17g/%.17g inf_du %.17g/%.17g mu %.17g/%.17g d_norm %.17g/%.17g reg %g/%g alpha %g %g/%g %g", (int)k, u.iter, v.iter, u.obj, v.obj, u.inf_pr, v.inf_pr, u.inf_du, v.inf_du, u.mu, v.mu, u.d_norm, v.d_norm, u.reg, v.reg, u.alpha_du, u.alpha_pr, v.alpha_du, v.alpha_pr);
   }
   if( r.nfinal != q.nfinal || r.fin != q.fin || !same(r.x, q.x) || !same(r.zl, q.zl) || !same(r.zu, q.zu) || !same(r.g, q.g) || !same(r.lam, q.lam) || !same(r.obj, q.obj) )
      return pbt::fmt("final report: obj %.17g/%.17g x=%s / %s lambda=%s / %s zl=%s / %s zu=%s / %s g=%s / %s", r.obj, q.obj, vs(r.x).c_str(), vs(q.x).c_str(), vs(r.lam).c_str(), vs(q.lam).c_str(), vs(r.zl).c_str(), vs(q.zl).c_str(), vs(r.zu).c_str(), vs(q.zu).c_str(), vs(r.g).c_str(), vs(q.g).c_str());
   if( r.have_stats != q.have_stats || r.iter_count != q.iter_count || !same(r.st_obj, q.st_obj) || !same(r.st_dual, q.st_dual) || !same(r.st_constr, q.st_constr) || !same(r.st_bound, q.st_bound) || !same(r.st_compl, q.st_compl) || !same(r.st_kkt, q.st_kkt) || r.ev_f != q.ev_f || r.ev_h != q.ev_h || r.ev_g != q.ev_g || r.ev_j != q.ev_j || r.ev_c != q.ev_c )
      return "statistics differ";
   return "";
}
static Run run(const Any& a)
{
   Run w;
   SmartPtr<RecTNLP> t = a.make();
   t->keep_trace = true;
   w.r = solve(GetRawPtr(t), a.o);
   w.tr = t->trace;
   return w;
}
static void gen(Ctx& c, Any& a, int extra = 0)
{
   gen_any(c, a, (AF_ALL | extra), c.src.flip(0.3) ? 0.2 : 0.05);
   if( a.o.num("max_iter", 1000) > 60 )
      a.o.I("max_iter", 60);
   c.desc << a.show();
}
// twice, with the heap filled by different garbage
static void f_garbage(Ctx& c)
{
   Any a;
   gen(c, a);
   static const int pat[] = {0x02, 0x80, 0x3f, 0xff, 0x41, 0x01};
   int i1 = c.src.below(6);
   int p1 = pat[i1], p2 = pat[(i1 + 1 + c.src.below(5)) % 6];
   mallopt(M_PERTURB, p1 ^ 0xff);
   g_fill = p1;
   Run u = run(a);
   mallopt(M_PERTURB, p2 ^ 0xff);
   g_fill = p2;
   Run v = run(a);
   mallopt(M_PERTURB, 0);
   g_fill = 0;
   c.desc << " -> " << statname(u.r.app) << " (memory filled with " << p1 << " and " << p2 << ")\n";
   c.label(statname(u.r.app));
   c.nontrivial = u.r.iters.size() > 2;
   std::string d = differ(u, v);
   PBT_CHECK(c, d.empty(), "repeat", "two runs of the same solve differ: %s", d.c_str());
}
// other solves before, other application objects alive, same application object used for other problems
static void f_history(Ctx& c)
{
   std::vector<Any> as(c.src.integer(2, 4));
   for( auto& a : as )
      gen(c, a);
   std::vector<Run> ref;
   for( auto& a : as )
      ref.push_back(run(a));
   c.nontrivial = ref[0].r.iters.size() > 2;
   // keep applications alive, sharing nothing
   std::vector<SmartPtr<IpoptApplication> > apps;
   std::vector<SmartPtr<RecTNLP> > keep;
   int steps = c.src.integer(3, 6);
   for( int s = 0; s < steps; ++s )
   {
      int k = c.src.below(as.size());
      bool reuse = !apps.empty() && c.src.flip(0.5);
      SmartPtr<IpoptApplication> app;
      if( reuse )
      {
         app = apps[c.src.below(apps.size())];
         app->Options()->clear();
      }
      else if( !apps.empty() && c.src.flip(0.3) )
         app = apps[0]->clone();
      else
         app = new IpoptApplication(false);
      if( IsValid(app) )
         app->Options()->clear();
      as[k].o.apply(*app->Options());
      SmartPtr<RecTNLP> t = as[k].make();
      t->keep_trace = true;
      ApplicationReturnStatus st = app->Initialize("");
      PBT_CHECK(c, st == Solve_Succeeded, "initialize", "Initialize returns %d", (int)st);
      t->out.app = app->OptimizeTNLP(GetRawPtr(t));
      grab_stats(*app, t->out);
      Run w;
      w.r = t->out;
      w.tr = t->trace;
      apps.push_back(app);
      if( c.src.flip(0.3) )
         keep.push_back(t);
      c.desc << " step " << s << ": case " << k << (reuse ? " on a used application object" : "") << " -> " << statname(w.r.app) << "\n";
      std::string d = differ(ref[k], w);
      PBT_CHECK(c, d.empty(), "isolation", "case %d gives another result after other solves: %s", k, d.c_str());
      if( c.src.flip(0.2) )
         apps.erase(apps.begin());
   }
}
// a solve inside a callback of another solve
static void f_nested(Ctx& c)
{
   Any a, b;
   gen(c, a);
   gen(c, b, 0);
   Run ra = run(a), rb = run(b);
   if( ra.tr.empty() )
      c.discard();
   int at = c.src.below(ra.tr.size());
   bool initer = c.src.flip(0.3);
   int every = c.src.flip(0.3) ? 3 : 1000000;
   SmartPtr<RecTNLP> t = a.make();
   t->keep_trace = true;
   int n = 0, runs = 0;
   std::string bad;
   auto inner = [&]()
   {
      if( runs > 3 )
         return;
      ++runs;
      Run w = run(b);
      std::string d = differ(rb, w);
      if( !d.empty() && bad.empty() )
         bad = d;
   };
   if( initer )
   {
      auto prev = t->on_iter;
      t->on_iter = [&, prev](RecTNLP & q, const IterInfo & i, const IpoptData * d, IpoptCalculatedQuantities * k)
      {
         if( i.iter == at % 5 )
            inner();
         return prev ? prev(q, i, d, k) : true;
      };
   }
   else
      t->on_eval = [&](int, const double*)
      {
         if( n == at || (n > at && (n - at) % every == 0) )
            inner();
         ++n;
      };
   Run w;
   w.r = solve(GetRawPtr(t), a.o);
   w.tr = t->trace;
   c.desc << " inner solves: " << runs << " outer " << statname(w.r.app) << "\n";
   c.nontrivial = runs > 0 && rb.r.iters.size() > 1;
   c.label(runs ? "nested solve done" : "no nested solve");
   PBT_CHECK(c, bad.empty(), "inner", "the nested solve differs from the solve alone: %s", bad.c_str());
   std::string d = differ(ra, w);
   PBT_CHECK(c, d.empty(), "outer", "the outer solve differs from the solve without nesting: %s", d.c_str());
}
// solves in several threads
static void f_threads(Ctx& c)
{
   int T = c.src.integer(2, 5);
   std::vector<Any> as(T);
   std::vector<int> reps(T);
   std::vector<Run> ref, got(T);
   std::vector<std::string> bad(T);
   for( int k = 0; k < T; ++k )
   {
      gen(c, as[k]);
      reps[k] = c.src.integer(1, 4);
      ref.push_back(run(as[k]));
   }
   // random yielding in callbacks: another interleaving
   std::vector<unsigned> seed(T);
   for( int k = 0; k < T; ++k )
      seed[k] = c.src.below(1000);
   std::mutex mu;
   std::condition_variable cv;
   int ready = 0;
   std::vector<std::thread> th;
   for( int k = 0; k < T; ++k )
      th.push_back(std::thread([&, k]()
   {
      {
         std::unique_lock<std::mutex> l(mu);
         ++ready;
         cv.notify_all();
         cv.wait(l, [&]() { return ready == T; });
      }
      unsigned s = seed[k];
      for( int i = 0; i < reps[k] && bad[k].empty(); ++i )
      {
         SmartPtr<RecTNLP> t = as[k].make();
         t->keep_trace = true;
         t->on_eval = [&s](int, const double*)
         {
            s = s * 1103515245u + 12345u;
            if( (s >> 16) % 3 == 0 )
               std::this_thread::yield();
         };
         Run w;
         w.r = solve(GetRawPtr(t), as[k].o);
         w.tr = t->trace;
         bad[k] = differ(ref[k], w);
      }
   }));
   for( auto& t : th )
      t.join();
   c.nontrivial = true;
   for( int k = 0; k < T; ++k )
      PBT_CHECK(c, bad[k].empty(), "thread", "solve in thread %d of %d differs from the solve alone: %s", k, T, bad[k].c_str());
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P13", "solve makes at least two iterations; nested: an inner solve with at least one iteration happened",
      {{"garbage", f_garbage, 3500, 400000}, {"history", f_history, 800, 100000}, {"nested", f_nested, 800, 100000}, {"threads", f_threads, 300, 80000}}
   };
   return pbt::run_main(argc, argv, k);
}
