// bitwise comparison of two runs
#ifndef TWIN_HPP
#define TWIN_HPP
#include "nlp.hpp"
#include <cstring>
namespace nlp
{
inline bool sameiter(const IterInfo& a, const IterInfo& b)
{
   double u[9] = {a.obj, a.inf_pr, a.inf_du, a.mu, a.d_norm, a.reg, a.alpha_du, a.alpha_pr, (double)a.ls};
   double v[9] = {b.obj, b.inf_pr, b.inf_du, b.mu, b.d_norm, b.reg, b.alpha_du, b.alpha_pr, (double)b.ls};
   return a.mode == b.mode && a.iter == b.iter && memcmp(u, v, sizeof u) == 0;
}
inline void compare(pbt::Ctx& c, const char* what, int r, RecTNLP& a, RecTNLP& b, bool trace)
{
   PBT_CHECK(c, a.out.app == b.out.app, "status", "%s %d: %s, twin %s", what, r, statname(a.out.app), statname(b.out.app));
   if( trace )
      for( size_t k = 0; k < std::min(a.trace.size(), b.trace.size()); ++k )
         PBT_CHECK(c, a.trace[k].kind == b.trace[k].kind && eqbits(a.trace[k].x, b.trace[k].x) && eqbits(a.trace[k].lam, b.trace[k].lam), "calls", "%s %d: call %d is %s(%s), twin %s(%s)", what, r, (int)k,
                   kindname[a.trace[k].kind], vs(a.trace[k].x).c_str(), kindname[b.trace[k].kind], vs(b.trace[k].x).c_str());
   for( size_t k = 0; k < std::min(a.out.iters.size(), b.out.iters.size()); ++k )
      PBT_CHECK(c, sameiter(a.out.iters[k], b.out.iters[k]), "reports", "%s %d: iteration report %d differs from that of a twin (obj %.17g %.17g inf_pr %g %g mu %g %g)", what, r, (int)k, a.out.iters[k].obj,
                b.out.iters[k].obj, a.out.iters[k].inf_pr, b.out.iters[k].inf_pr, a.out.iters[k].mu, b.out.iters[k].mu);
   PBT_CHECK(c, a.out.iters.size() == b.out.iters.size(), "reports", "%s %d: %d iteration reports, twin %d", what, r, (int)a.out.iters.size(), (int)b.out.iters.size());
   PBT_CHECK(c, a.out.nfinal == b.out.nfinal && a.out.fin == b.out.fin, "final", "%s %d: finalize_solution %d times with %d, twin %d times with %d", what, r, a.out.nfinal, a.out.fin, b.out.nfinal, b.out.fin);
   PBT_CHECK(c, eqbits(a.out.x, b.out.x) && eqbits(a.out.lam, b.out.lam) && eqbits(a.out.zl, b.out.zl) && eqbits(a.out.zu, b.out.zu) && eqbits(a.out.g, b.out.g), "solution", "%s %d: solution %s lam %s, twin %s lam %s",
             what, r, vs(a.out.x).c_str(), vs(a.out.lam).c_str(), vs(b.out.x).c_str(), vs(b.out.lam).c_str());
   PBT_CHECK(c, a.out.have_stats == b.out.have_stats, "stats", "%s %d: statistics %d, twin %d", what, r, a.out.have_stats, b.out.have_stats);
   if( a.out.have_stats )
   {
      PBT_CHECK(c, a.out.iter_count == b.out.iter_count && memcmp(&a.out.st_obj, &b.out.st_obj, 8) == 0 && memcmp(&a.out.st_kkt, &b.out.st_kkt, 8) == 0, "stats", "%s %d: iterations %d, obj %g, error %g; twin %d %g %g", what, r,
                a.out.iter_count, a.out.st_obj, a.out.st_kkt, b.out.iter_count, b.out.st_obj, b.out.st_kkt);
      PBT_CHECK(c, a.out.ev_f == b.out.ev_f && a.out.ev_c == b.out.ev_c && a.out.ev_g == b.out.ev_g && a.out.ev_j == b.out.ev_j && a.out.ev_h == b.out.ev_h, "stats", "%s %d: evaluations %d %d %d %d %d, twin %d %d %d %d %d", what, r,
                a.out.ev_f, a.out.ev_c, a.out.ev_g, a.out.ev_j, a.out.ev_h, b.out.ev_f, b.out.ev_c, b.out.ev_g, b.out.ev_j, b.out.ev_h);
   }
}
}
#endif
