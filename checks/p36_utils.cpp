// P36: basic numeric helpers are exact at the edges.
#include "pbt.hpp"
#include "IpUtils.hpp"
#include "IpTimedTask.hpp"
#include <cfloat>
#include <cmath>
#include <climits>
#include <cstring>
#include <unistd.h>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

static double anydouble(pbt::Src& s)
{
   switch( s.below(8) )
   {
      case 0: return s.nice(-10, 10);
      case 1:
      {
         pbt::u64 b = s.bits();
         double d;
         memcpy(&d, &b, 8);
         return d;
      }
      case 2: return s.flip() ? INFINITY : -INFINITY;
      case 3:
      {
         pbt::u64 b = (s.bits() & 0x800fffffffffffffull) | 0x7ff0000000000001ull;
         double d;
         memcpy(&d, &b, 8);
         return d;
      }
      case 4: return s.flip() ? DBL_MAX : -DBL_MAX;
      case 5: return s.flip() ? 4.9e-324 : -DBL_MIN;
      case 6: return s.flip() ? 0. : -0.;
      default: return s.logreal(1e-300, 1e300) * (s.flip() ? 1 : -1);
   }
}
static bool bitfinite(double d)
{
   pbt::u64 b;
   memcpy(&b, &d, 8);
   return ((b >> 52) & 0x7ff) != 0x7ff;
}
static void f_finite(Ctx& c)
{
   double d = anydouble(c.src);
   c.desc << fmt("%.17g\n", d);
   PBT_CHECK(c, IsFiniteNumber(d) == bitfinite(d), "finite", "IsFiniteNumber(%g) is %d", d, IsFiniteNumber(d));
   c.nontrivial = true;
   c.label(bitfinite(d) ? "finite" : "not finite");
}
static void f_compare(Ctx& c)
{
   pbt::Src& s = c.src;
   double r = s.flip(0.8) ? s.nice(-100, 100) * (s.flip() ? 1 : s.logreal(1e-12, 1e12)) : anydouble(s);
   double bas = s.flip() ? r : s.flip(0.8) ? s.nice(-100, 100) : anydouble(s);
   double k = s.flip() ? s.integer(-40, 40) : s.real(-1e3, 1e3);
   double l = s.flip(0.8) ? r + k * DBL_EPSILON * std::fabs(bas) : anydouble(s);
   bool got = Compare_le(l, r, bas);
   c.desc << fmt("%.17g <= %.17g relative to %.17g\n", l, r, bas);
   if( l <= r && bitfinite(l) && bitfinite(r) && bitfinite(l - r) && bas == bas )
      PBT_CHECK(c, got, "too-strict", "Compare_le(%.17g, %.17g, %.17g) is false", l, r, bas);
   if( l > r && bitfinite(bas) && bitfinite(l) && bitfinite(r) && l - r > 100 * DBL_EPSILON * std::fabs(bas) )
      PBT_CHECK(c, !got, "too-loose", "Compare_le(%.17g, %.17g, %.17g) is true", l, r, bas);
   // "a little larger than machine precision": violations of up to machine precision are accepted
   if( bitfinite(bas) && bitfinite(l) && bitfinite(r) && std::fabs(bas) > 1e-280 && l - r <= 1.0000001 * DBL_EPSILON * std::fabs(bas) )
      PBT_CHECK(c, got, "too-strict", "Compare_le(%.17g, %.17g, %.17g) is false", l, r, bas);
   if( l != l || r != r )
      PBT_CHECK(c, !got, "nan", "Compare_le with NaN is true");
   c.nontrivial = l != r && std::fabs(l - r) <= 1e4 * DBL_EPSILON * std::fabs(bas);
}
static void f_random(Ctx& c)
{
   pbt::Src& s = c.src;
   int n = s.integer(1, 50), skip = s.integer(0, 20), resets = s.integer(1, 3);
   c.desc << n << " numbers, " << skip << " skipped\n";
   IpResetRandom01();
   std::vector<double> a(n);
   for( double& x : a )
   {
      x = IpRandom01();
      PBT_CHECK(c, x >= 0 && x <= 1, "range", "random number %g", x);
   }
   for( int r = 0; r < resets; ++r )
   {
      for( int i = 0; i < skip; ++i )
         IpRandom01();
      IpResetRandom01();
      for( int i = 0; i < n; ++i )
      {
         double x = IpRandom01();
         PBT_CHECK(c, x == a[i], "repeat", "number %d after reset is %g instead of %g", i, x, a[i]);
      }
   }
   for( int i = 1; i < n; ++i )
      PBT_CHECK(c, a[i] != a[i - 1], "constant", "random numbers do not change");
   c.nontrivial = n > 1;
}
static void f_minmax(Ctx& c)
{
   pbt::Src& s = c.src;
   double v[4];
   for( double& x : v )
      x = anydouble(s);
   for( double& x : v )
      if( x != x )
         x = 0;
   double mx = v[0], mn = v[0], m3 = v[0], n3 = v[0];
   for( int i = 0; i < 4; ++i )
   {
      mx = v[i] > mx ? v[i] : mx, mn = v[i] < mn ? v[i] : mn;
      if( i < 3 )
         m3 = v[i] > m3 ? v[i] : m3, n3 = v[i] < n3 ? v[i] : n3;
   }
   PBT_CHECK(c, Max(v[0], v[1], v[2], v[3]) == mx && Min(v[0], v[1], v[2], v[3]) == mn, "minmax", "of four: %g %g %g %g", v[0], v[1], v[2], v[3]);
   PBT_CHECK(c, Max(v[0], v[1], v[2]) == m3 && Min(v[0], v[1], v[2]) == n3, "minmax", "of three: %g %g %g", v[0], v[1], v[2]);
   PBT_CHECK(c, Max(v[0], v[1]) == (v[0] > v[1] ? v[0] : v[1]) && Min(v[0], v[1]) == (v[0] < v[1] ? v[0] : v[1]), "minmax", "of two: %g %g", v[0], v[1]);
   c.nontrivial = true;
}
template<class T> static void mem(Ctx& c)
{
   pbt::Src& s = c.src;
   const T mxv = std::numeric_limits<T>::max();
   T len = s.flip(0.1) ? mxv : (T)(s.unit() * (double)mxv * (s.flip() ? 1e-3 : 0.999));
   double rec;
   switch( s.below(4) )
   {
      case 0: rec = (double)len * s.real(1, 3); break;
      case 1: rec = (double)mxv * s.real(0.999, 1.001); break;
      case 2: rec = s.real(0, 1e4); break;
      default: rec = 1e30;
   }
   T min = (T)(s.unit() * 1e6) % 100000;
   c.desc << fmt("len %.17g recommended %.17g min %.17g\n", (double)len, rec, (double)min);
   T old = len;
   bool threw = false;
   try
   {
      ComputeMemIncrease(len, rec, min, "test");
   }
   catch( const std::overflow_error& )
   {
      threw = true;
   }
   bool fits = rec < (double)mxv;
   PBT_CHECK(c, threw == (!fits && old == mxv), "mem-exception", "exception %d", threw);
   if( threw )
      return;
   if( !fits )
      PBT_CHECK(c, len == mxv, "mem", "%.17g instead of the maximum", (double)len);
   else
      PBT_CHECK(c, len >= min && len == std::max(min, (T)rec), "mem", "%.17g", (double)len);
   c.nontrivial = true;
}
static void f_mem(Ctx& c) { if( c.src.flip() ) mem<int>(c); else mem<size_t>(c); }
static void f_snprintf(Ctx& c)
{
   pbt::Src& s = c.src;
   int sz = s.integer(1, 40), len = s.integer(0, 60), iv = s.integer(-1000, 1000);
   std::string t(len, 'q');
   std::vector<char> b(sz + 16, '#');
   int r = Snprintf(b.data(), sz, "%d-%s", iv, t.c_str());
   std::string want = fmt("%d-", iv) + t;
   c.desc << "size " << sz << " text " << want << "\n";
   PBT_CHECK(c, std::string(b.data()) == want.substr(0, sz - 1), "snprintf", "'%s' instead of '%s'", b.data(), want.substr(0, sz - 1).c_str());
   PBT_CHECK(c, r == (int)want.size(), "snprintf", "returns %d", r);
   for( int i = 0; i < 16; ++i )
      PBT_CHECK(c, b[sz + i] == '#', "overflow", "written behind the end of the buffer");
   c.nontrivial = (int)want.size() >= sz;
}
static void spin(double t)
{
   double a = WallclockTime();
   volatile double x = 0;
   while( WallclockTime() - a < t )
      for( int i = 0; i < 50; ++i )
         x += i;
}
static void f_timer(Ctx& c)
{
   pbt::Src& s = c.src;
   TimedTask t;
   // lower and upper limits on the totals from clock readings around the calls
   double lo[3] = {}, hi[3] = {}, in[3], out[3];
   bool started = false, enabled = true, running = false;
   auto rd = [](double* v) { v[0] = CpuTime(), v[1] = SysTime(), v[2] = WallclockTime(); };
   int nops = s.integer(1, 12), intervals = 0;
   double last[3];
   rd(last);
   for( int op = 0; op < nops; ++op )
   {
      int what = s.below(7);
      double now[3];
      rd(now);
      for( int k = 0; k < 3; ++k )
         PBT_CHECK(c, now[k] >= last[k] || (k == 2 && now[k] > last[k] - 1e-3), "backwards", "clock %d runs backwards: %.9g after %.9g", k, now[k], last[k]);
      memcpy(last, now, sizeof last);
      double a[3], b[3];
      switch( what )
      {
         case 0:
         case 1:
            if( started )
               break;
            c.desc << "start\n";
            rd(a);
            t.Start();
            rd(b);
            if( enabled )
            {
               memcpy(in, a, sizeof in), memcpy(out, b, sizeof out);
               started = true;
            }
            PBT_CHECK(c, t.IsStarted() == started, "started", "operation %d: IsStarted %d", op, t.IsStarted());
            if( started )
               PBT_CHECK(c, t.StartWallclockTime() >= a[2] && t.StartWallclockTime() <= b[2] && t.StartCpuTime() >= a[0] && t.StartCpuTime() <= b[0] && t.StartSysTime() >= a[1] && t.StartSysTime() <= b[1], "start", "operation %d: start times", op);
            break;
         case 2:
         case 3:
            if( !started && what == 2 && enabled )
               break;
            c.desc << (what == 2 ? "end\n" : "end if started\n");
            rd(a);
            if( what == 2 )
               t.End();
            else
               t.EndIfStarted();
            rd(b);
            if( enabled && started )
            {
               for( int k = 0; k < 3; ++k )
                  lo[k] += a[k] - out[k], hi[k] += b[k] - in[k];
               started = false;
               ++intervals;
            }
            break;
         case 4:
            if( s.flip(0.2) && !started )
            {
               c.desc << "reset\n";
               t.Reset();
               for( int k = 0; k < 3; ++k )
                  lo[k] = hi[k] = 0;
            }
            break;
         case 5:
            if( started )
               break;
            enabled = !s.flip(0.3);
            c.desc << (enabled ? "enable\n" : "disable\n");
            if( enabled )
               t.Enable();
            else
               t.Disable();
            PBT_CHECK(c, t.IsEnabled() == enabled, "enabled", "operation %d", op);
            break;
         default:
            spin(1e-5 * s.integer(0, 20));
      }
      running = started;
      if( !running )
      {
         double got[3] = {t.TotalCpuTime(), t.TotalSysTime(), t.TotalWallclockTime()};
         for( int k = 0; k < 3; ++k )
            PBT_CHECK(c, got[k] >= lo[k] - 1e-9 * (1 + nops) && got[k] <= hi[k] + 1e-9 * (1 + nops), "total", "operation %d: total time %d is %.9g, not in [%.9g, %.9g]", op, k, got[k], lo[k], hi[k]);
      }
   }
   c.nontrivial = intervals > 0;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P36", "any double; values within rounding; truncated text; at least one timed interval",
      {  {"finite", f_finite, 60000, 6000000}, {"compare", f_compare, 100000, 10000000}, {"random", f_random, 5000, 500000}, {"minmax", f_minmax, 20000, 2000000},
         {"mem", f_mem, 20000, 2000000}, {"snprintf", f_snprintf, 20000, 2000000}, {"timer", f_timer, 6000, 300000}
      }
   };
   return pbt::run_main(argc, argv, k);
}
