// A random solve: problem, presentation, options, behaviour of the user (stops, faults, scaling, warm start).
#ifndef ANYCASE_HPP
#define ANYCASE_HPP
#include "nlp.hpp"
#include "optgen.hpp"
#include <memory>
namespace nlp
{
enum AnyFlags
{
   AF_FAULTS = 1, AF_STOP = 2, AF_FD = 4, AF_DT = 8, AF_USERSCALE = 16, AF_WARM = 32, AF_INFEAS = 64, AF_FIXEDTREAT = 128, AF_HINTS = 256, AF_LIMITS = 512, AF_CONVEXONLY = 1024, AF_NOMASK = 2048, AF_PENALTY = 4096,
   AF_DEP = 8192, AF_SMALL = 16384,
   AF_ALL = AF_FAULTS | AF_STOP | AF_FD | AF_DT | AF_USERSCALE | AF_WARM | AF_INFEAS | AF_FIXEDTREAT | AF_HINTS | AF_LIMITS | AF_PENALTY | AF_DEP
};
struct Any
{
   Problem p;
   Pres pres;
   Opts o;
   std::string note;                 ///< description of the user's behaviour
   bool fd_grad = false, fd_jac = false, lbfgs = false, dt = false, faults = false, userscale = false, warm = false;
   int stop_at = -1;
   std::vector<std::function<void(RecTNLP&)> > setup;
   Ipopt::SmartPtr<RecTNLP> make() const;
   std::string show() const { return p.show() + o.show() + "\n" + note; }
};
/** rho: probability of each algorithmic option being set */
void gen_any(pbt::Ctx& c, Any& a, int flags, double rho = 0.1);
}
#endif
