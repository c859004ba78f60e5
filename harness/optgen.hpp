#ifndef OPTGEN_HPP
#define OPTGEN_HPP
#include "nlp.hpp"
namespace nlp
{
enum OptMask
{
   OG_BARRIER = 1, OG_LS = 2, OG_LINSOL = 4, OG_QN = 8, OG_INIT = 16, OG_SCALING = 32, OG_RESTO = 64, OG_FIXED = 128, OG_PENALTYLS = 256, OG_BOUNDRELAX = 512, OG_MEHROTRA = 1024, OG_RISKY = 2048,
   OG_STD = OG_BARRIER | OG_LS | OG_LINSOL | OG_QN | OG_INIT | OG_SCALING
};
/** append random valid settings of algorithmic options; each option is set with probability rho */
void gen_algo_options(pbt::Ctx& c, Opts& o, int mask, double rho);
}
#endif
