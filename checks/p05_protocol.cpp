// P05: user callbacks are invoked according to the documented protocol.
#include "anycase.hpp"
#include "adapter.hpp"
using namespace nlp;
using namespace Ipopt;
using pbt::Ctx;

static void verdict(Ctx& c, RecTNLP& t, const Any& a, long solves = 1)
{
   if( !t.out.viol.empty() )
   {
      std::string k = t.out.viol[0].first;
      // known finding: the dependency detector asks for the user's Jacobian values (first of all such calls)
      if( k == "unneeded-jac" && a.fd_jac && t.out.calls[K_JAC] <= solves && a.o.find("dependency_detector") )
         k += "-dependency-detector";
      // known finding: multipliers of removed fixed variables are computed from the user's gradient when the solution is reported
      if( k == "unneeded-grad" && a.fd_grad && t.out.calls[K_GRAD] <= solves && a.p.nfixed() > 0 && a.o.str("fixed_variable_treatment", "make_parameter") == "make_parameter" )
         k += "-fixed-duals";
      c.fail(k.c_str(), "%s", t.out.viol[0].second.c_str());
   }
   const Outcome& r = t.out;
   PBT_CHECK(c, r.calls[K_NLPINFO] > 0, "no-info", "get_nlp_info never called");
   if( r.calls[K_JAC] > 0 && !t.pres.jac.empty() )
      PBT_CHECK(c, r.calls[K_JACS] > 0, "structure", "Jacobian values without structure");
   if( r.calls[K_HESS] > 0 && !t.pres.hess.empty() )
      PBT_CHECK(c, r.calls[K_HESSS] > 0, "structure", "Hessian values without structure");
}
static void f_single(Ctx& c)
{
   Any a;
   gen_any(c, a, AF_ALL, c.src.flip(0.3) ? 0.25 : 0.06);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   Outcome r = solve(GetRawPtr(t), a.o);
   c.desc << " -> " << statname(r.app) << " after " << r.iters.size() << " reports\n";
   c.label(statname(r.app));
   c.nontrivial = r.calls[K_F] + r.calls[K_G] > 3;
   verdict(c, *t, a);
}
// several solves with one application object: another solve, re-optimization, same structure, changed options
static void f_history(Ctx& c)
{
   Any a;
   gen_any(c, a, (AF_ALL & ~AF_FAULTS) | AF_SMALL, 0.05);
   c.desc << a.show();
   SmartPtr<RecTNLP> t = a.make();
   SmartPtr<TNLP> keep = GetRawPtr(t);
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   a.o.apply(*app->Options());
   if( app->Initialize("") != Solve_Succeeded )
      c.discard();
   int k = c.src.integer(2, 4);
   bool opted = false;
   for( int q = 0; q < k; ++q )
   {
      int op = q == 0 ? 0 : c.src.integer(0, 3);
      ApplicationReturnStatus st;
      // a new solve: everything may be requested again, the first evaluation must have new_x=true
      t->have_last = false;
      t->last_lam_valid = false;
      if( op == 2 && opted )
      {
         app->Options()->SetStringValue("warm_start_same_structure", "yes");
         st = app->ReOptimizeTNLP(keep);
         app->Options()->SetStringValue("warm_start_same_structure", "no");
         c.desc << " reoptimize(same structure)";
      }
      else if( op == 1 && opted )
      {
         st = app->ReOptimizeTNLP(keep);
         c.desc << " reoptimize";
      }
      else
      {
         st = app->OptimizeTNLP(keep);
         c.desc << " optimize";
      }
      opted = opted || t->out.nfinal > 0;
      c.desc << " -> " << statname(st) << "\n";
      if( op == 3 )
         app->Options()->SetIntegerValue("max_iter", c.src.integer(0, 5));
      c.nontrivial = c.nontrivial || (q > 0 && t->out.calls[K_F] > 3);
      verdict(c, *t, a, q + 1);
   }
}
static void f_adapter(Ctx& c)
{
   adapter_history(c, false);
}
int main(int argc, char** argv)
{
   pbt::Check ck = {"P05", "more than three objective or constraint evaluations were monitored (facet history: in a repeated solve)",
      {{"single", f_single, 14000, 800000}, {"adapter", f_adapter, 60000, 2000000}, {"history", f_history, 3000, 200000}}
   };
   return pbt::run_main(argc, argv, ck);
}
