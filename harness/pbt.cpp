#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

#include <execinfo.h>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_SAN
#endif
#endif
namespace pbt
{
static u64 mix(u64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
u64 hash64(const void* p, size_t n, u64 h)
{
   const unsigned char* c = (const unsigned char*)p;
   for( size_t i = 0; i < n; ++i )
   {
      h ^= c[i];
      h *= 1099511628211ull;
   }
   return h;
}
std::string fmt(const char* f, ...)
{
   char buf[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   return buf;
}

Src::Src(u64 seed) : s(mix(seed)) { }
Src::Src(const std::vector<u64>& c) : in(c), replay(true) { }
u64 Src::bits()
{
   u64 v;
   if( replay )
      v = pos < in.size() ? in[pos] : 0;
   else
   {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      v = mix(s);
   }
   ++pos;
   rec.push_back(v);
   if( rec.size() > 2000000 )
      throw Discard();
   return v;
}
u64 Src::below(u64 n)
{
   u64 v;
   if( n <= 1 )
      return 0;
   if( replay )
   {
      v = pos < in.size() ? in[pos] : 0;
      if( v >= n )
         v %= n;
   }
   else
   {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      v = mix(s) % n;
   }
   ++pos;
   rec.push_back(v);
   if( rec.size() > 2000000 )
      throw Discard();
   return v;
}
int Src::integer(int lo, int hi)
{
   return lo + (int)below((u64)((long long)hi - lo) + 1);
}
bool Src::flip(double p)
{
   const u64 N = 1 << 20;
   u64 v = below(N);
   return v >= (u64)((1.0 - p) * (double)N);
}
double Src::unit()
{
   return (double)below(1u << 30) / (double)(1u << 30);
}
double Src::real(double lo, double hi)
{
   return lo + (hi - lo) * unit();
}
double Src::logreal(double lo, double hi)
{
   return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
}
double Src::nice(double lo, double hi)
{
   int k = (int)below(4);
   double base = lo > 0 ? lo : (hi < 0 ? hi : 0.);
   if( k <= 1 )
   {
      // integers ordered by distance from base
      long long a = (long long)std::ceil(lo), b = (long long)std::floor(hi);
      if( a > b )
         return base;
      long long z = (long long)std::llround(base);
      z = std::min(std::max(z, a), b);
      u64 n = (u64)(b - a) + 1;
      u64 v = below(n);
      // zig-zag around z
      long long up = b - z, dn = z - a, m = std::min(up, dn);
      if( (long long)v <= 2 * m )
         return (double)(v % 2 ? z + (long long)(v + 1) / 2 : z - (long long)v / 2);
      return (double)(up > dn ? z + ((long long)v - m) : z - ((long long)v - m));
   }
   if( k == 2 )
   {
      double q = std::floor((hi - lo) * 4);
      return std::min(hi, lo + (double)below((u64)q + 1) / 4);
   }
   double u = unit();
   return lo + (hi - lo) * u;
}
int Src::weighted(std::initializer_list<int> w)
{
   int t = 0;
   for( int x : w )
      t += x;
   int v = (int)below((u64)t), i = 0;
   for( int x : w )
   {
      if( v < x )
         return i;
      v -= x;
      ++i;
   }
   return 0;
}
std::vector<int> Src::perm(int n)
{
   std::vector<int> p(n);
   for( int i = 0; i < n; ++i )
      p[i] = i;
   for( int i = 0; i + 1 < n; ++i )
      std::swap(p[i], p[i + (int)below((u64)(n - i))]);
   return p;
}
void Ctx::fail(const char* key, const char* f, ...)
{
   char buf[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   if( !failed )
      first = Failure{key, buf};
   failed = true;
   throw Failure{key, buf};
}

static std::string g_scratch;
const std::string& scratch()
{
   return g_scratch;
}

static double now()
{
   struct timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ---------------------------------------------------------------- result of one case
enum { R_PASS = 0, R_DISCARD = 1, R_FAIL = 2 };
struct Result
{
   int status = R_PASS;
   bool nontrivial = false;
   u64 hash = 0;
   std::string key, msg, desc;
   std::map<std::string, int> labels;
   std::vector<u64> choices;
};

static Ctx* g_ctx = NULL;
static void dump_case(bool bt)
{
   static bool once = false;
   if( once )
      return;
   once = true;
   if( bt )
   {
      void* a[40];
      int k = backtrace(a, 40);
      backtrace_symbols_fd(a, k, 1);
   }
   if( g_ctx )
   {
      std::string d = "\n" + g_ctx->desc.str() + "\n";
      if( write(1, d.data(), d.size()) < 0 )
         return;
   }
}
static void on_crash(int sig)
{
   signal(sig, SIG_DFL);
   dump_case(true);
   raise(sig);
}

static Result run_case(const Facet& f, Src& src, bool verbose, bool thorough)
{
   Result r;
   Ctx c(src);
   c.verbose = verbose;
   c.thorough = thorough;
   g_ctx = &c;
   try
   {
      f.fn(c);
   }
   catch( const Failure& e )
   {
      r.status = R_FAIL;
      r.key = e.key;
      r.msg = e.msg;
   }
   catch( const Discard& )
   {
      r.status = R_DISCARD;
   }
   catch( const std::exception& e )
   {
      r.status = R_FAIL;
      r.key = "escaped-exception";
      r.msg = std::string("exception escaped: ") + e.what();
   }
   catch( ... )
   {
      r.status = R_FAIL;
      r.key = "escaped-exception";
      r.msg = "exception of unknown type escaped";
   }
   if( c.failed )
   {
      r.status = R_FAIL;
      r.key = c.first.key;
      r.msg = c.first.msg;
   }
   g_ctx = NULL;
   r.nontrivial = c.nontrivial;
   r.labels = c.labels;
   r.desc = c.desc.str();
   r.choices = src.rec;
   r.hash = hash64(src.rec.data(), src.rec.size() * sizeof(u64), hash64(f.name, strlen(f.name)));
   return r;
}

static void put(std::string& b, const void* p, size_t n)
{
   b.append((const char*)p, n);
}
static void puts_(std::string& b, const std::string& s)
{
   uint32_t n = (uint32_t)s.size();
   put(b, &n, 4);
   b += s;
}
static std::string pack(int facet, int idx, const Result& r, bool withdesc)
{
   std::string b;
   put(b, &facet, 4);
   put(b, &idx, 4);
   put(b, &r.status, 4);
   int nt = r.nontrivial;
   put(b, &nt, 4);
   put(b, &r.hash, 8);
   puts_(b, r.key);
   puts_(b, r.msg);
   puts_(b, withdesc || r.status == R_FAIL ? r.desc.substr(0, 20000) : std::string());
   uint32_t n = (uint32_t)r.labels.size();
   put(b, &n, 4);
   for( auto& l : r.labels )
   {
      puts_(b, l.first);
      put(b, &l.second, 4);
   }
   n = r.status == R_FAIL ? (uint32_t)r.choices.size() : 0;
   put(b, &n, 4);
   if( n )
      put(b, r.choices.data(), n * 8);
   return b;
}
struct Rd
{
   const char* p;
   void get(void* q, size_t n) { memcpy(q, p, n); p += n; }
   std::string str() { uint32_t n; get(&n, 4); std::string s(p, n); p += n; return s; }
};
static void unpack(const std::string& b, int& facet, int& idx, Result& r)
{
   Rd d{b.data()};
   int nt;
   d.get(&facet, 4);
   d.get(&idx, 4);
   d.get(&r.status, 4);
   d.get(&nt, 4);
   r.nontrivial = nt;
   d.get(&r.hash, 8);
   r.key = d.str();
   r.msg = d.str();
   r.desc = d.str();
   uint32_t n;
   d.get(&n, 4);
   while( n-- )
   {
      std::string s = d.str();
      int v;
      d.get(&v, 4);
      r.labels[s] = v;
   }
   d.get(&n, 4);
   r.choices.resize(n);
   if( n )
      d.get(r.choices.data(), n * 8);
}
static bool write_all(int fd, const std::string& b)
{
   size_t o = 0;
   while( o < b.size() )
   {
      ssize_t k = write(fd, b.data() + o, b.size() - o);
      if( k < 0 )
      {
         if( errno == EINTR )
            continue;
         return false;
      }
      o += (size_t)k;
   }
   return true;
}

// ---------------------------------------------------------------- CPU limit per case
static void on_prof(int)
{
   dump_case(false);
   _exit(97);
}
static void arm(double sec)
{
   struct itimerval it;
   memset(&it, 0, sizeof it);
   it.it_value.tv_sec = (time_t)sec;
   it.it_value.tv_usec = (suseconds_t)((sec - std::floor(sec)) * 1e6);
   setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup(const std::string& outfile)
{
   signal(SIGPROF, on_prof);
#ifndef PBT_SAN
   signal(SIGSEGV, on_crash);
   signal(SIGBUS, on_crash);
   signal(SIGFPE, on_crash);
   signal(SIGABRT, on_crash);
#endif
   signal(SIGINT, SIG_DFL);
   struct rlimit rl = {0, 0};
   setrlimit(RLIMIT_CORE, &rl);
#ifndef PBT_SAN
   struct rlimit rm = {3ul << 30, 3ul << 30};
   setrlimit(RLIMIT_AS, &rm);
#endif
   int fd = open(outfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
   dup2(fd, 1);
   dup2(fd, 2);
   close(fd);
   int nul = open("/dev/null", O_RDONLY);
   dup2(nul, 0);
   close(nul);
}
static std::string tail(const std::string& file, size_t n = 6000)
{
   std::ifstream f(file, std::ios::binary);
   std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
   // for sanitizer output the head is more useful
   size_t p = s.find("ERROR: ");
   size_t q = s.find("runtime error:");
   p = std::min(p, q);
   if( p != std::string::npos )
   {
      size_t b = s.rfind('\n', p);
      return s.substr(b == std::string::npos ? 0 : b + 1, n);
   }
   return s.size() > n ? s.substr(s.size() - n) : s;
}
static std::string crash_key(int st, const std::string& out)
{
   if( WIFEXITED(st) && WEXITSTATUS(st) == 97 )
      return "hang";
   size_t p = out.find("SUMMARY: ");
   if( p != std::string::npos )
   {
      size_t e = out.find('\n', p);
      std::string s = out.substr(p + 9, e - p - 9);
      // keep the tool and error kind and function, drop paths and line numbers
      std::istringstream is(s);
      std::string w, k;
      int i = 0;
      while( is >> w && i < 2 )
      {
         k += (k.empty() ? "" : " ") + w;
         ++i;
      }
      size_t in = s.rfind(" in ");
      if( in != std::string::npos )
         k += s.substr(in);
      return "sanitizer:" + k;
   }
   if( WIFSIGNALED(st) )
      return fmt("crash:signal %d", WTERMSIG(st));
   return fmt("crash:exit %d", WEXITSTATUS(st));
}

/** run one case given by choices in a forked child */
static Result run_isolated(const Facet& f, const std::vector<u64>& choices, bool thorough, double limit)
{
   int pp[2];
   if( pipe(pp) )
      abort();
   std::string out = g_scratch + "/shrink.out";
   pid_t pid = fork();
   if( pid == 0 )
   {
      close(pp[0]);
      setpgid(0, 0);
      child_setup(out);
      arm(limit);
      Src s(choices);
      Result r = run_case(f, s, false, thorough);
      r.status == R_FAIL ? (void)0 : (void)r.choices.clear();
      write_all(pp[1], pack(0, 0, r, true));
      _exit(0);
   }
   close(pp[1]);
   std::string b;
   char buf[65536];
   double t0 = now();
   bool killed = false;
   for( ;; )
   {
      struct pollfd pf = {pp[0], POLLIN, 0};
      int k = poll(&pf, 1, 1000);
      if( k > 0 )
      {
         ssize_t n = read(pp[0], buf, sizeof buf);
         if( n <= 0 )
            break;
         b.append(buf, (size_t)n);
      }
      else if( now() - t0 > 10 * limit + 20 )
      {
         kill(-pid, SIGKILL);
         kill(pid, SIGKILL);
         killed = true;
         break;
      }
   }
   close(pp[0]);
   int st = 0;
   waitpid(pid, &st, 0);
   Result r;
   if( !killed && WIFEXITED(st) && WEXITSTATUS(st) == 0 && b.size() > 20 )
   {
      int a, c;
      unpack(b, a, c, r);
      return r;
   }
   r.status = R_FAIL;
   r.key = killed ? "hang" : crash_key(st, tail(out));
   r.msg = r.key + "\n" + tail(out);
   r.choices = choices;
   return r;
}

// ---------------------------------------------------------------- shrinking
static bool simpler(const std::vector<u64>& a, const std::vector<u64>& b)
{
   if( a.size() != b.size() )
      return a.size() < b.size();
   return a < b;
}
static Result shrink(const Facet& f, Result best, bool thorough, double budget, int& tries)
{
   double t_end = now() + budget;
   double limit = f.cpu_limit;
   bool hang = best.key == "hang";
   if( hang )
      t_end = now() + std::min(budget, 30.);
   tries = 0;
   auto attempt = [&](std::vector<u64> cand) -> bool
   {
      while( !cand.empty() && cand.back() == 0 )
         cand.pop_back();
      if( !simpler(cand, best.choices) )
         return false;
      ++tries;
      Result r = run_isolated(f, cand, thorough, limit);
      if( r.status == R_FAIL && r.key == best.key )
      {
         std::vector<u64> used = r.choices;
         while( !used.empty() && used.back() == 0 )
            used.pop_back();
         if( used.size() > cand.size() || hang )
            used = cand;
         r.choices = simpler(used, cand) ? used : cand;
         best = r;
         return true;
      }
      return false;
   };
   bool progress = true;
   while( progress && now() < t_end )
   {
      progress = false;
      for( size_t len : {64, 32, 16, 8, 4, 3, 2, 1} )
         for( size_t i = best.choices.size(); i-- > 0 && now() < t_end; )
         {
            if( i + len > best.choices.size() )
               continue;
            std::vector<u64> c = best.choices;
            c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
            if( attempt(c) )
            {
               progress = true;
               i = std::min(i + len, best.choices.size());
            }
            else if( len > 4 && i >= len / 2 )
               i -= len / 2;
         }
      for( size_t len : {16, 4, 1} )
         for( size_t i = 0; i + len <= best.choices.size() && now() < t_end; i += len )
         {
            std::vector<u64> c = best.choices;
            bool nz = false;
            for( size_t k = i; k < i + len; ++k )
               if( c[k] )
               {
                  nz = true;
                  c[k] = 0;
               }
            if( nz && attempt(c) )
               progress = true;
         }
      for( size_t i = 0; i < best.choices.size() && now() < t_end; ++i )
      {
         u64 lo = 0;
         while( i < best.choices.size() && best.choices[i] > lo && now() < t_end )
         {
            u64 hi = best.choices[i], mid = lo + (hi - lo) / 2;
            std::vector<u64> c = best.choices;
            c[i] = mid;
            if( attempt(c) )
               progress = true;
            else
               lo = mid + 1;
         }
      }
   }
   return best;
}

// ---------------------------------------------------------------- json helpers
static std::string js(const std::string& s)
{
   std::string o = "\"";
   for( unsigned char c : s )
   {
      if( c == '"' || c == '\\' )
      {
         o += '\\';
         o += (char)c;
      }
      else if( c == '\n' )
         o += "\\n";
      else if( c < 32 || c > 126 )
         o += fmt("\\u%04x", c);
      else
         o += (char)c;
   }
   return o + "\"";
}

struct FacetStat
{
   long cases = 0, discarded = 0, nontrivial = 0, inconclusive = 0, known = 0;
   std::set<u64> distinct;
   std::map<std::string, long> labels;
   std::vector<std::string> samples;
};

static void rmtree(const std::string& d)
{
   DIR* dir = opendir(d.c_str());
   if( !dir )
      return;
   while( struct dirent* e = readdir(dir) )
   {
      std::string n = e->d_name;
      if( n == "." || n == ".." )
         continue;
      std::string p = d + "/" + n;
      struct stat st;
      if( lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode) )
         rmtree(p);
      else
         unlink(p.c_str());
   }
   closedir(dir);
   rmdir(d.c_str());
}

struct Known
{
   std::string key, text, facet;
};
static std::vector<Known> load_known(const std::string& file, const std::string& id)
{
   // lines:  known: property=<id> facet=<facet> key=<key> | <text>
   std::vector<Known> v;
   std::ifstream f(file);
   std::string l;
   while( std::getline(f, l) )
   {
      if( l.compare(0, 6, "known:") != 0 )
         continue;
      size_t a = l.find("property=" + id + " ");
      size_t k = l.find("key="), fa = l.find("facet="), b = l.find(" | ");
      if( a == std::string::npos || k == std::string::npos || b == std::string::npos || fa == std::string::npos )
         continue;
      Known n;
      n.key = l.substr(k + 4, b - k - 4);
      n.facet = l.substr(fa + 6, l.find(' ', fa) - fa - 6);
      n.text = l.substr(b + 3);
      v.push_back(n);
   }
   return v;
}

struct Shared
{
   volatile int facet, idx;
   volatile double started;
};

int run_main(int argc, char** argv, const Check& check)
{
   std::string verif = ".", replayfile, onlyfacet, casearg;
   int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
   double scale = 1, wall = 0;
   bool verbose = false, noshrink = false, keepgoing = false;
   const char* e = getenv("VERIF_SEED");
   u64 seed = e ? strtoull(e, nullptr, 10) : 1;
   e = getenv("VERIF_TIER");
   bool thorough = e && !strcmp(e, "thorough");
   for( int i = 1; i < argc; ++i )
   {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if( a == "--verif" )
         verif = next();
      else if( a == "--replay" )
         replayfile = next();
      else if( a == "--facet" )
         onlyfacet = next();
      else if( a == "--case" )
         casearg = next();
      else if( a == "--jobs" )
         jobs = atoi(next().c_str());
      else if( a == "--scale" )
         scale = atof(next().c_str());
      else if( a == "--wall" )
         wall = atof(next().c_str());
      else if( a == "--seed" )
         seed = strtoull(next().c_str(), nullptr, 10);
      else if( a == "--tier" )
         thorough = next() == "thorough";
      else if( a == "--verbose" )
         verbose = true;
      else if( a == "--no-shrink" )
         noshrink = true;
      else if( a == "--keep-going" )
         keepgoing = true;
   }
   if( wall == 0 )
      wall = thorough ? 1500 : 500;
   double t0 = now();
   setvbuf(stdout, nullptr, _IOLBF, 0);
   signal(SIGPIPE, SIG_IGN);
   {
      const char* td = getenv("TMPDIR");
      std::string t = std::string(td ? td : "/tmp") + "/pbt." + check.id + ".XXXXXX";
      std::vector<char> b(t.begin(), t.end());
      b.push_back(0);
      if( !mkdtemp(b.data()) )
      {
         perror("mkdtemp");
         return 2;
      }
      g_scratch = b.data();
      chmod(g_scratch.c_str(), 0755);
   }
   auto case_seed = [&](const Facet& f, int idx)
   {
      u64 h = hash64(check.id, strlen(check.id));
      h = hash64(f.name, strlen(f.name), h);
      return mix(h ^ mix(seed * 1000003 + 17) ^ mix((u64)idx + 0x1234567));
   };

   // ---------------- single in-process case
   if( getenv("PBT_PRINT") )
      setenv("NLP_PRINT", getenv("PBT_PRINT"), 1);
   if( !casearg.empty() )
   {
      for( auto& f : check.facets )
         if( onlyfacet == f.name )
         {
            Src s(case_seed(f, atoi(casearg.c_str())));
            Result r = run_case(f, s, true, thorough);
            printf("%s\nstatus %d key %s\n%s\n", r.desc.c_str(), r.status, r.key.c_str(), r.msg.c_str());
            for( auto& l : r.labels )
               printf("  label %s %d\n", l.first.c_str(), l.second);
         }
      rmtree(g_scratch);
      return 0;
   }
   // ---------------- replay
   if( !replayfile.empty() )
   {
      std::ifstream in(replayfile);
      std::string l, fac;
      std::vector<u64> ch;
      while( std::getline(in, l) )
      {
         if( l.compare(0, 7, "facet: ") == 0 )
            fac = l.substr(7);
         if( l.compare(0, 9, "choices: ") == 0 )
         {
            std::istringstream is(l.substr(9));
            u64 v;
            while( is >> v )
               ch.push_back(v);
         }
      }
      int rc = 2;
      for( auto& f : check.facets )
         if( fac == f.name )
         {
            Result r;
            if( verbose )
            {
               Src s(ch);
               r = run_case(f, s, true, thorough);
            }
            else
               r = run_isolated(f, ch, thorough, f.cpu_limit);
            printf("facet: %s\n%s\nkey: %s\n%s\n", f.name, r.desc.c_str(), r.key.c_str(), r.msg.c_str());
            if( r.status == R_FAIL )
               printf("VIOLATION property=%s replay=%s\n", check.id, replayfile.c_str());
            else
               printf("no violation\n");
            rc = r.status == R_FAIL ? 1 : 0;
         }
      rmtree(g_scratch);
      return rc;
   }

   // ---------------- exploration
   std::vector<Known> known = load_known(verif + "/known-findings.txt", check.id);
   std::map<std::string, long> known_hits;
   std::vector<FacetStat> stats(check.facets.size());
   std::vector<std::pair<int, Result> > failures;
   struct HangCase { int facet, idx; };
   std::vector<HangCase> hangs;

   struct Job { int facet, idx; };
   std::vector<Job> order;
   std::vector<int> ncases;
   for( size_t k = 0; k < check.facets.size(); ++k )
   {
      const Facet& f = check.facets[k];
      int n = (int)((thorough ? f.thorough : f.quick) * scale + 0.5);
      if( !onlyfacet.empty() && onlyfacet != f.name )
         n = 0;
      ncases.push_back(n);
   }
   // interleave facets proportionally so that a wall budget cuts all of them alike
   {
      long total = 0;
      for( int n : ncases )
         total += n;
      std::vector<int> done(ncases.size(), 0);
      for( long i = 0; i < total; ++i )
      {
         int b = -1;
         double bv = 2;
         for( size_t k = 0; k < ncases.size(); ++k )
            if( done[k] < ncases[k] )
            {
               double v = (double)done[k] / ncases[k];
               if( v < bv )
               {
                  bv = v;
                  b = (int)k;
               }
            }
         order.push_back(Job{b, done[(size_t)b]++});
      }
   }
   struct Global { volatile long next; volatile int stop; };
   Global* G = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * (size_t)jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   G->next = 0;
   G->stop = 0;
   struct Worker { pid_t pid = -1; int fd = -1; std::string buf; };
   std::vector<Worker> W((size_t)jobs);
   auto spawn = [&](int w)
   {
      int pp[2];
      if( pipe(pp) )
         abort();
      fflush(stdout);
      sh[w].idx = -1;
      pid_t pid = fork();
      if( pid == 0 )
      {
         close(pp[0]);
         for( auto& o : W )
            if( o.fd >= 0 )
               close(o.fd);
         setpgid(0, 0);
         std::string out = g_scratch + fmt("/w%d.out", w);
         child_setup(out);
         for( ;; )
         {
            long i = __sync_fetch_and_add(&G->next, 1);
            if( i >= (long)order.size() || G->stop )
               break;
            const Job& j = order[(size_t)i];
            const Facet& f = check.facets[(size_t)j.facet];
            sh[w].facet = j.facet;
            sh[w].started = now();
            sh[w].idx = j.idx;
            if( ftruncate(1, 0) ) { }
            arm(f.cpu_limit);
            Src s(case_seed(f, j.idx));
            Result r = run_case(f, s, false, thorough);
            arm(0);
            std::string b = pack(j.facet, j.idx, r, j.idx < 400);
            uint32_t n = (uint32_t)b.size();
            std::string m((const char*)&n, 4);
            m += b;
            sh[w].idx = -1;
            if( !write_all(pp[1], m) )
               break;
         }
         _exit(0);
      }
      close(pp[1]);
      W[(size_t)w].pid = pid;
      W[(size_t)w].fd = pp[0];
      W[(size_t)w].buf.clear();
   };
   int alive = 0;
   for( int w = 0; w < jobs; ++w )
   {
      spawn(w);
      ++alive;
   }
   std::map<std::string, int> failkeys;
   // choices of a case identified by seed: record in an isolated child through a pipe-backed recorder
   auto choices_of = [&](const Facet& f, int idx) -> std::vector<u64>
   {
      // run in a child that dumps the recorded choices continuously into shared memory
      size_t cap = 4u << 20;
      u64* m = (u64*)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      pid_t pid = fork();
      if( pid == 0 )
      {
         child_setup(g_scratch + "/choices.out");
         arm(f.cpu_limit);
         Src s(case_seed(f, idx));
         // make the recorder write into the shared area: reserve so that no reallocation happens
         s.rec.reserve(2100000);
         // publish pointer contents at exit by signal handlers is fragile; instead fork-free copy in SIGSEGV etc.
         static Src* ps;
         static u64* pm;
         ps = &s;
         pm = m;
         auto dump = [](int)
         {
            size_t n = ps->rec.size();
            pm[0] = n;
            for( size_t i = 0; i < n; ++i )
               pm[i + 1] = ps->rec[i];
            _exit(98);
         };
         signal(SIGSEGV, dump);
         signal(SIGABRT, dump);
         signal(SIGFPE, dump);
         signal(SIGBUS, dump);
         signal(SIGILL, dump);
         signal(SIGPROF, dump);
         atexit([]()
         {
            size_t n = ps->rec.size();
            pm[0] = n;
            for( size_t i = 0; i < n; ++i )
               pm[i + 1] = ps->rec[i];
         });
         try
         {
            run_case(f, s, false, thorough);
         }
         catch( ... )
         {
         }
         dump(0);
      }
      int st;
      waitpid(pid, &st, 0);
      std::vector<u64> v(m + 1, m + 1 + m[0]);
      munmap(m, cap * 8);
      return v;
   };

   int unconfirmed = 0;
   auto on_result = [&](int facet, int idx, Result& r)
   {
      FacetStat& st = stats[(size_t)facet];
      st.cases++;
      if( r.status == R_DISCARD )
         st.discarded++;
      for( auto& l : r.labels )
      {
         st.labels[l.first] += l.second;
         static const char* find = getenv("PBT_FIND");
         if( find && l.first == find )
            printf("FOUND %s: --facet %s --case %d\n", find, check.facets[(size_t)facet].name, idx);
      }
      if( r.status != R_DISCARD && r.nontrivial )
      {
         st.nontrivial++;
         if( st.distinct.insert(r.hash).second && st.samples.size() < 4 && !r.desc.empty() )
            st.samples.push_back(r.desc);
      }
      if( r.status == R_FAIL )
      {
         for( auto& k : known )
            if( k.key == r.key && k.facet == check.facets[(size_t)facet].name )
            {
               st.known++;
               known_hits[k.facet + "/" + k.key]++;
               return;
            }
         if( !keepgoing && unconfirmed < 25 )
         {
            // a failure that does not come again in isolation (timing, load) must not end the search
            const Facet& f = check.facets[(size_t)facet];
            std::vector<u64> ch = r.choices.empty() ? choices_of(f, idx) : r.choices;
            int again = 0;
            for( int k = 0; k < 3 && !again; ++k )
               again += run_isolated(f, ch, thorough, f.cpu_limit * (r.key == "hang" ? 2 : 1)).status == R_FAIL;
            if( !again )
            {
               fprintf(stderr, "NOTE: failure %s/%s did not reproduce in isolation: %s\n", f.name, r.key.c_str(), r.msg.c_str());
               st.inconclusive++;
               ++unconfirmed;
               return;
            }
         }
         failkeys[std::string(check.facets[(size_t)facet].name) + "/" + r.key]++;
         if( failkeys[std::string(check.facets[(size_t)facet].name) + "/" + r.key] <= 1 )
            failures.push_back(std::make_pair(facet, r));
         if( !keepgoing && failures.size() >= 1 )
            G->stop = 1;
      }
   };
   bool cut = false;
   while( alive > 0 )
   {
      std::vector<struct pollfd> pf;
      std::vector<int> who;
      for( int w = 0; w < jobs; ++w )
         if( W[(size_t)w].fd >= 0 )
         {
            pf.push_back({W[(size_t)w].fd, POLLIN, 0});
            who.push_back(w);
         }
      poll(pf.data(), pf.size(), 500);
      double t = now();
      if( t - t0 > wall && !G->stop )
      {
         G->stop = 1;
         cut = true;
      }
      for( size_t q = 0; q < pf.size(); ++q )
      {
         int w = who[q];
         Worker& wk = W[(size_t)w];
         if( pf[q].revents )
         {
            char buf[65536];
            ssize_t n = read(wk.fd, buf, sizeof buf);
            if( n > 0 )
            {
               wk.buf.append(buf, (size_t)n);
               size_t o = 0;
               while( wk.buf.size() - o >= 4 )
               {
                  uint32_t len;
                  memcpy(&len, wk.buf.data() + o, 4);
                  if( wk.buf.size() - o - 4 < len )
                     break;
                  int fa, ix;
                  Result r;
                  unpack(wk.buf.substr(o + 4, len), fa, ix, r);
                  on_result(fa, ix, r);
                  o += 4 + len;
               }
               wk.buf.erase(0, o);
               continue;
            }
            // eof: worker ended
            close(wk.fd);
            wk.fd = -1;
            int st = 0;
            waitpid(wk.pid, &st, 0);
            --alive;
            if( sh[w].idx >= 0 )
            {
               int fa = sh[w].facet, ix = sh[w].idx;
               std::string out = tail(g_scratch + fmt("/w%d.out", w));
               Result r;
               r.status = R_FAIL;
               r.nontrivial = true;
               r.key = crash_key(st, out);
               r.msg = r.key + "\n" + out;
               if( r.key == "hang" )
                  hangs.push_back(HangCase{fa, ix});
               else
               {
                  // obtain the choices by drawing again in a child that writes them as it goes is not possible after
                  // a crash; the seed identifies the case and the generator is deterministic
                  r.choices.clear();
                  r.hash = case_seed(check.facets[(size_t)fa], ix);
                  r.msg = fmt("case %d: ", ix) + r.msg;
                  r.desc = fmt("@seedcase %d", ix);
                  on_result(fa, ix, r);
               }
            }
            if( !G->stop && G->next < (long)order.size() )
            {
               spawn(w);
               ++alive;
            }
         }
         else if( sh[w].idx >= 0 && sh[w].started > 0 && t - sh[w].started > 10 * check.facets[(size_t)sh[w].facet].cpu_limit + 30 )
         {
            kill(-wk.pid, SIGKILL);
            kill(wk.pid, SIGKILL);
            int fa = sh[w].facet, ix = sh[w].idx;
            sh[w].idx = -1;
            hangs.push_back(HangCase{fa, ix});
         }
      }
   }

   for( auto& h : hangs )
   {
      const Facet& f = check.facets[(size_t)h.facet];
      FacetStat& st = stats[(size_t)h.facet];
      if( !f.hang_fails )
      {
         st.cases++;
         st.inconclusive++;
         continue;
      }
      if( failures.size() >= 3 )
         continue;
      std::vector<u64> ch = choices_of(f, h.idx);
      Result r = run_isolated(f, ch, thorough, 2 * f.cpu_limit);
      if( r.status == R_FAIL )
      {
         r.choices = ch;
         on_result(h.facet, h.idx, r);
      }
      else
      {
         st.cases++;
         st.inconclusive++;
      }
   }

   int rc = 0;
   std::vector<std::string> violations;
   mkdir((verif + "/out").c_str(), 0755);
   for( auto& fr : failures )
   {
      const Facet& f = check.facets[(size_t)fr.first];
      Result r = fr.second;
      if( r.choices.empty() && r.desc.compare(0, 9, "@seedcase") == 0 )
         r.choices = choices_of(f, atoi(r.desc.c_str() + 10));
      // confirm
      int again = 0;
      Result last = r;
      for( int k = 0; k < 3; ++k )
      {
         Result q = run_isolated(f, r.choices, thorough, f.cpu_limit * (r.key == "hang" ? 2 : 1));
         if( q.status == R_FAIL )
         {
            ++again;
            last = q;
         }
      }
      if( again == 0 )
      {
         // depends on state left behind by earlier cases of the same worker process or on timing
         fprintf(stderr, "NOTE: failure %s/%s did not reproduce in isolation: %s\n", f.name, r.key.c_str(), r.msg.c_str());
         stats[(size_t)fr.first].inconclusive++;
         continue;
      }
      std::vector<u64> orig = r.choices;
      r = last;
      if( r.choices.empty() )
         r.choices = orig;
      int tries = 0;
      size_t before = r.choices.size();
      if( !noshrink )
         r = shrink(f, r, thorough, thorough ? 120 : 45, tries);
      std::string path = verif + "/out/" + check.id + "-" + f.name + fmt("-%08llx.replay", (unsigned long long)(hash64(r.choices.data(), r.choices.size() * 8) & 0xffffffffu));
      std::ofstream o(path);
      o << "property: " << check.id << "\nfacet: " << f.name << "\nseed: " << seed << "\nkey: " << r.key << "\nchoices:";
      for( u64 v : r.choices )
         o << ' ' << v;
      o << "\n\n" << r.msg << "\n\n" << r.desc << "\n";
      o.close();
      printf("facet %s: %s\n%s\n(shrunk from %zu to %zu choices in %d tries; replay: bin/check %s --replay %s)\n", f.name, r.key.c_str(), r.msg.c_str(), before,
             r.choices.size(), tries, check.id, path.c_str());
      printf("VIOLATION property=%s replay=%s\n", check.id, path.c_str());
      violations.push_back(path);
      rc = 1;
   }
   for( auto& k : known )
      if( onlyfacet.empty() || k.facet == onlyfacet )
         printf("KNOWN-FINDING: property=%s %s (key %s, hit %ld times in this run)\n", check.id, k.text.c_str(), k.key.c_str(), known_hits[k.facet + "/" + k.key]);

   // ---------------- evidence
   long ev = 0, dn = 0, inc = 0;
   std::ostringstream fj, sj;
   bool first = true, sfirst = true;
   for( size_t k = 0; k < stats.size(); ++k )
   {
      FacetStat& s = stats[k];
      ev += s.cases;
      inc += s.inconclusive;
      dn += (long)s.distinct.size();
      fj << (first ? "" : ",") << "\n   " << js(check.facets[k].name) << ":{\"cases\":" << s.cases << ",\"discarded\":" << s.discarded << ",\"nontrivial\":" << s.nontrivial
         << ",\"distinct_nontrivial\":" << s.distinct.size() << ",\"inconclusive\":" << s.inconclusive << ",\"known_finding_hits\":" << s.known << ",\"labels\":{";
      bool lf = true;
      for( auto& l : s.labels )
      {
         fj << (lf ? "" : ",") << js(l.first) << ":" << l.second;
         lf = false;
      }
      fj << "}}";
      first = false;
      for( size_t q = 0; q < s.samples.size() && q < 3; ++q )
      {
         sj << (sfirst ? "" : ",") << "\n   " << js(std::string("[") + check.facets[k].name + "] " + s.samples[q].substr(0, 1500));
         sfirst = false;
      }
   }
   double wallused = now() - t0;
   mkdir((verif + "/evidence").c_str(), 0755);
   if( onlyfacet.empty() )
   {
      std::ofstream o(verif + "/evidence/" + check.id + ".json");
      o << "{\"property\":" << js(check.id) << ",\"tier\":" << js(thorough ? "thorough" : "quick") << ",\"seed\":" << seed << ",\"level\":" << js(check.level) << ",\"wall_s\":" << fmt("%.2f", wallused)
        << ",\n \"coverage\":{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << dn << ",\"rule\":" << js(check.rule) << ",\"inconclusive\":" << inc << ",\"cut_by_wall_budget\":" << (cut ? "true" : "false")
        << ",\n  \"samples\":[" << sj.str() << "],\n  \"facets\":{" << fj.str() << "}}";
      o << ",\n \"violations\":" << violations.size() << "}\n";
   }
   printf("%s %s: %ld cases, %ld distinct non-trivial, %ld inconclusive, %.1f s%s\n", check.id, rc ? "VIOLATED" : "held", ev, dn, inc, wallused, cut ? " (cut by wall budget)" : "");
   if( verbose )
      for( size_t k = 0; k < stats.size(); ++k )
      {
         printf("  %-24s cases %ld discarded %ld nontrivial %ld inconclusive %ld known %ld\n", check.facets[k].name, stats[k].cases, stats[k].discarded, stats[k].nontrivial, stats[k].inconclusive, stats[k].known);
         for( auto& l : stats[k].labels )
            printf("       %-40s %ld\n", l.first.c_str(), l.second);
      }
   for( auto& fk : failkeys )
      if( keepgoing )
         printf("  failkey %s x%d\n", fk.first.c_str(), fk.second);
   rmtree(g_scratch);
   return rc;
}
}
