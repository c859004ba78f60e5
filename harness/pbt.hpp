// Minimal property-based testing engine: choice-sequence generation, forked workers with crash/hang
// isolation, internal shrinking, replay files and evidence output. No dependency on the code under test.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
typedef uint64_t u64;

/** Source of choices: random (recorded) or replayed; an exhausted replay yields zeros. */
struct Src
{
   std::vector<u64> rec;
   std::vector<u64> in;
   size_t pos = 0;
   bool replay = false;
   u64 s = 1;

   explicit Src(u64 seed);
   explicit Src(const std::vector<u64>& choices);
   u64 below(u64 n);                 ///< uniform in [0,n); shrinks to 0
   u64 bits();                       ///< 64 random bits; shrinks to 0
   int integer(int lo, int hi);      ///< uniform in [lo,hi]; shrinks to lo
   bool flip(double p = 0.5);        ///< true with probability p; shrinks to false
   double unit();                    ///< [0,1) multiples of 2^-30; shrinks to 0
   double real(double lo, double hi);///< uniform; shrinks to lo
   double nice(double lo, double hi);///< mixture of integers, quarters and arbitrary reals in [lo,hi]; shrinks to value nearest 0
   double logreal(double lo, double hi); ///< log-uniform, 0<lo<hi; shrinks to lo
   int weighted(std::initializer_list<int> w); ///< index with given weights; shrinks to 0
   template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   std::vector<int> perm(int n);     ///< permutation; shrinks to identity
};

struct Failure
{
   std::string key;   ///< failure class (kept fixed while shrinking; matched against known findings)
   std::string msg;
};
struct Discard { };

struct Ctx
{
   Src& src;
   bool nontrivial = false;
   bool verbose = false;
   bool thorough = false;
   bool failed = false;          ///< fail() was called; remembered because the code under test may swallow the exception
   Failure first;
   std::map<std::string, int> labels;
   std::ostringstream desc;      ///< human readable description of the case (evidence sample, replay file)
   explicit Ctx(Src& s) : src(s) { }
   void label(const std::string& l) { labels[l]++; }
   [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
   [[noreturn]] void discard() { throw Discard(); }
};

#define PBT_CHECK(c, cond, key, ...) do { if(!(cond)) (c).fail(key, __VA_ARGS__); } while(0)

typedef void (*PropFn)(Ctx&);

struct Facet
{
   const char* name;
   PropFn fn;
   int quick;                 ///< cases in the quick tier
   int thorough;              ///< cases in the thorough tier (upper bound, wall budget applies)
   double cpu_limit = 20;     ///< CPU seconds per case before it counts as a hang
   bool hang_fails = false;   ///< does a hang violate the property (confirmed by replays)?
};

struct Check
{
   const char* id;
   const char* rule;          ///< rule for non-trivial cases
   std::vector<Facet> facets;
   const char* level = "exploration";
};

int run_main(int argc, char** argv, const Check& check);

/** scratch directory of this process's check run, removed at the end by the parent */
const std::string& scratch();
/** a string with %g formatting */
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
u64 hash64(const void* p, size_t n, u64 h = 1469598103934665603ull);
}
#endif
