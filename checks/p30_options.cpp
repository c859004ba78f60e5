// P30: the options list behaves like a typed, validated, prefix-aware map.
#include "pbt.hpp"
#include "IpOptionsList.hpp"
#include "IpRegOptions.hpp"
#include "IpJournalist.hpp"
#include "IpSmartPtr.hpp"
#include <cmath>
#include <climits>
#include <cstring>
#include <limits>
#include <map>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

struct Def
{
   std::string name;
   int type = 0;   // 0 number, 1 integer, 2 string, 3 bool
   bool lo = false, hi = false, los = false, his = false;
   double l = 0, u = 0, dn = 0;
   std::vector<std::string> choices;
   std::string ds;
};
static std::string low(std::string s) { for( auto& c : s ) c = (char)tolower(c); return s; }
struct Val { std::string s; double d; bool num, clobber; bool dontprint; };   // num: stored as number d (text unspecified)
typedef std::map<std::string, Val> Model;

static double edge(pbt::Src& s, const Def& d)
{
   switch( s.below(12) )
   {
      case 0: return d.l;
      case 1: return d.u;
      case 2: return std::nextafter(d.l, -1e308);
      case 3: return std::nextafter(d.l, 1e308);
      case 4: return std::nextafter(d.u, 1e308);
      case 5: return std::nextafter(d.u, -1e308);
      case 6: return s.real(-10, 10);
      case 7: return s.flip() ? 1e300 * s.real(-1, 1) : s.logreal(1e-310, 1e-290);
      case 8: return s.flip() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      case 9: return std::numeric_limits<double>::quiet_NaN();
      case 10: return s.integer(-3, 3);
      default: return d.l + (d.u - d.l) * s.unit();
   }
}
static bool validnum(const Def& d, double v)
{
   if( v != v )
      return !d.lo && !d.hi;
   if( d.lo && !(d.los ? v > d.l : v >= d.l) )
      return false;
   if( d.hi && !(d.his ? v < d.u : v <= d.u) )
      return false;
   return true;
}
static std::string mixcase(pbt::Src& s, std::string t, double p)
{
   if( s.flip(p) )
      for( auto& c : t )
         if( s.flip() )
            c = (char)(isupper(c) ? tolower(c) : toupper(c));
   return t;
}
static bool eqi(const std::string& a, const std::string& b) { return low(a) == low(b); }
static int choice(const Def& d, const std::string& v)
{
   for( size_t i = 0; i < d.choices.size(); ++i )
      if( d.choices[i] != "*" && eqi(d.choices[i], v) )
         return (int)i;
   return -1;
}
static bool wild(const Def& d) { for( auto& c : d.choices ) if( c == "*" ) return true; return false; }
static std::vector<Def> gen_defs(Ctx& c)
{
   pbt::Src& s = c.src;
   static const char* names[] = {"tol", "max_iter", "mu_init", "file", "flag", "zeta", "tolx", "a"};
   std::vector<Def> v(s.integer(1, 8));
   for( size_t i = 0; i < v.size(); ++i )
   {
      Def& d = v[i];
      d.name = names[i];
      d.type = s.below(4);
      if( d.type < 2 )
      {
         d.lo = s.flip(0.6), d.hi = s.flip(0.6);
         d.l = d.type ? s.integer(-5, 3) : s.nice(-5, 3);
         d.u = d.type ? d.l + s.integer(0, 5) : d.l + s.real(0.5, 5);
         d.los = d.type == 0 && s.flip(), d.his = d.type == 0 && s.flip();
         if( d.type && s.flip(0.1) )
            d.u = INT_MAX;
         if( d.type && s.flip(0.1) )
            d.l = INT_MIN;
         d.dn = d.type ? d.l : 0.5 * (d.l + d.u);
      }
      else if( d.type == 2 )
      {
         static const char* ch[] = {"none", "exact", "limited-memory", "Mixed_Case", "x y", "adaptive", ""};
         int k = s.integer(1, 5);
         for( int j = 0; j < k; ++j )
         {
            std::string t = ch[s.below(7)];
            if( choice(d, t) < 0 )
               d.choices.push_back(t);
         }
         if( s.flip(0.25) )
            d.choices.insert(d.choices.begin() + s.below(d.choices.size() + 1), "*");
         do
            d.ds = d.choices[s.below(d.choices.size())];
         while( false );
         if( d.ds == "*" )
            d.ds = "any";
      }
      else
      {
         d.choices = {"yes", "no"};
         d.ds = s.flip() ? "yes" : "no";
      }
   }
   return v;
}
static void do_register(RegisteredOptions& r, const std::vector<Def>& v, pbt::Src& s)
{
   for( auto& d : v )
   {
      if( d.type == 0 )
      {
         if( d.lo && d.hi ) r.AddBoundedNumberOption(d.name, "s", d.l, d.los, d.u, d.his, d.dn);
         else if( d.lo ) r.AddLowerBoundedNumberOption(d.name, "s", d.l, d.los, d.dn);
         else if( d.hi ) r.AddUpperBoundedNumberOption(d.name, "s", d.u, d.his, d.dn);
         else r.AddNumberOption(d.name, "s", d.dn);
      }
      else if( d.type == 1 )
      {
         if( d.lo && d.hi ) r.AddBoundedIntegerOption(d.name, "s", (Index)d.l, (Index)d.u, (Index)d.dn);
         else if( d.lo ) r.AddLowerBoundedIntegerOption(d.name, "s", (Index)d.l, (Index)d.dn);
         else if( d.hi ) r.AddUpperBoundedIntegerOption(d.name, "s", (Index)d.u, (Index)d.dn);
         else r.AddIntegerOption(d.name, "s", (Index)d.dn);
      }
      else if( d.type == 2 )
      {
         auto& k = d.choices;
         switch( s.flip() ? k.size() : 99 )
         {
            case 1: r.AddStringOption1(d.name, "s", d.ds, k[0], ""); break;
            case 2: r.AddStringOption2(d.name, "s", d.ds, k[0], "", k[1], ""); break;
            case 3: r.AddStringOption3(d.name, "s", d.ds, k[0], "", k[1], "", k[2], ""); break;
            case 4: r.AddStringOption4(d.name, "s", d.ds, k[0], "", k[1], "", k[2], "", k[3], ""); break;
            case 5: r.AddStringOption5(d.name, "s", d.ds, k[0], "", k[1], "", k[2], "", k[3], "", k[4], ""); break;
            default: r.AddStringOption(d.name, "s", d.ds, k, std::vector<std::string>(k.size()));
         }
      }
      else
         r.AddBoolOption(d.name, "s", d.ds == "yes");
   }
}
static bool sameval(double a, double b) { return a == b || (a != a && b != b); }

static void run(Ctx& c, bool reg)
{
   pbt::Src& s = c.src;
   std::vector<Def> defs = gen_defs(c);
   SmartPtr<RegisteredOptions> ro = new RegisteredOptions();
   do_register(*ro, defs, s);
   SmartPtr<Journalist> jn = new Journalist();
   bool withj = s.flip();
   const int NL = 3;
   SmartPtr<OptionsList> L[NL];
   Model M[NL];
   for( int k = 0; k < NL; ++k )
   {
      if( reg )
         L[k] = new OptionsList(ro, withj ? jn : SmartPtr<Journalist>());
      else
      {
         L[k] = new OptionsList();
         if( withj )
            L[k]->SetJournalist(jn);
      }
   }
   static const char* prefixes[] = {"", "", "", "resto.", "a.b.", "ReSto."};
   int nops = s.integer(1, 40);
   int sets = 0, refused = 0, gets = 0;
   for( int op = 0; op < nops; ++op )
   {
      int k = s.below(NL);
      SmartPtr<OptionsList> hold = L[k];
      OptionsList& o = *hold;
      Model& m = M[k];
      const Def& d = defs[s.below(defs.size())];
      std::string pre = prefixes[s.below(6)];
      bool known = !s.flip(0.05);
      std::string name = known ? d.name : d.name + "q";
      bool clob = !s.flip(0.2), dp = s.flip(0.2);
      int type = s.flip(0.85) ? d.type : (int)s.below(4);
      int what = s.below(10);
      std::string tag = pre + name;
      std::string key = low(tag);
      if( !reg )
         tag = mixcase(s, tag, 0.3);
      if( what <= 4 )
      {
         // set, (2..: if unset)
         bool ifunset = what == 3;
         double v = type == 1 ? (s.flip(0.1) ? (s.flip() ? INT_MAX : INT_MIN) : (double)(Index)std::max(-2e9, std::min(2e9, std::floor(0.5 + (d.type == 1 && s.flip(0.8) ? std::max(-2e9, std::min(2e9, edge(s, d) == 0. ? 0. : s.flip() ? d.l + s.integer(-2, 2) : d.u + s.integer(-2, 2))) : s.integer(-100, 100)))))) : edge(s, d);
         bool bv = s.flip();
         std::string sv;
         if( type == 2 )
         {
            sv = !d.choices.empty() && s.flip(0.7) ? d.choices[s.below(d.choices.size())] : std::string(s.flip() ? "foo" : "yes");
            sv = mixcase(s, sv, 0.3);
            if( s.flip(0.05) )
               sv += " ";
         }
         if( type == 3 )
            sv = bv ? "yes" : "no";
         bool valid = !reg || (known && (type >= 2 ? d.type >= 2 : type == d.type));
         if( valid && reg )
         {
            if( type == 0 || type == 1 )
               valid = validnum(d, v);
            else
               valid = choice(d, sv) >= 0 || wild(d);
         }
         bool wasset = m.count(key) > 0;
         c.desc << fmt("%d: set%s(%s, ", k, ifunset ? "IfUnset" : "", tag.c_str()) << (type >= 2 ? "'" + sv + "'" : fmt("%.17g", v)) << fmt(", type %d, clobber %d, dont_print %d)\n", type, clob, dp);
         bool ret = false, threw = false;
         try
         {
            if( type == 0 )
               ret = ifunset ? o.SetNumericValueIfUnset(tag, v, clob, dp) : o.SetNumericValue(tag, v, clob, dp);
            else if( type == 1 )
               ret = ifunset ? o.SetIntegerValueIfUnset(tag, (Index)v, clob, dp) : o.SetIntegerValue(tag, (Index)v, clob, dp);
            else if( type == 2 )
               ret = ifunset ? o.SetStringValueIfUnset(tag, sv, clob, dp) : o.SetStringValue(tag, sv, clob, dp);
            else
               ret = ifunset ? o.SetBoolValueIfUnset(tag, bv, clob, dp) : o.SetBoolValue(tag, bv, clob, dp);
         }
         catch( const IpoptException& )
         {
            threw = true;
         }
         if( ifunset && !reg && wasset && (m[key].num != (type < 2) || (type == 1 && !(std::fabs(m[key].d) < 1e5 && m[key].d == std::floor(m[key].d)))) )
            continue;   // reading the stored text as another type is not specified
         if( threw )
         {
            PBT_CHECK(c, ifunset && (!valid || !known), "set-throws", "operation %d: exception for a valid setting", op);
            ++refused;
            continue;
         }
         if( ifunset && wasset )
         {
            PBT_CHECK(c, ret, "ifunset", "operation %d: false although a value is set", op);
            continue;
         }
         PBT_CHECK(c, ret == valid || (wasset && !m[key].clobber), valid ? "refused" : "accepted", "operation %d: returns %d", op, ret);
         if( !valid )
         {
            PBT_CHECK(c, !ret, "accepted", "operation %d: invalid setting accepted", op);
            ++refused;
            continue;
         }
         ++sets;
         if( !wasset || m[key].clobber )
            m[key] = {type >= 2 ? sv : "", v, type < 2, clob, dp};
      }
      else if( what == 5 )
      {
         if( s.flip(0.7) )
         {
            bool has = m.count(key) > 0, can = has && m[key].clobber;
            c.desc << k << ": unset(" << tag << ")\n";
            bool r = o.UnsetValue(tag);
            PBT_CHECK(c, r == can, "unset", "operation %d: UnsetValue returns %d", op, r);
            if( can )
               m.erase(key);
         }
         else
         {
            int k2 = s.below(NL);
            switch( s.below(3) )
            {
               case 0:
                  c.desc << k << ": clear\n";
                  o.clear();
                  m.clear();
                  break;
               case 1:
                  c.desc << k2 << " = " << k << "\n";
                  *L[k2] = o;
                  M[k2] = m;
                  break;
               default:
                  c.desc << k2 << " = copy of " << k << "\n";
                  if( s.flip() || !reg )
                     L[k2] = new OptionsList(o);
                  else
                  {
                     L[k2] = new OptionsList();
                     L[k2]->SetRegisteredOptions(ro);
                     *L[k2] = o;
                  }
                  if( k2 != k )
                     M[k2] = m;
            }
         }
      }
      else
      {
         ++gets;
         std::string prefix = prefixes[s.below(6)];
         std::string gtag = reg ? (s.flip(0.2) ? pre + name : name) : mixcase(s, name, 0.3);
         std::string k1 = low(prefix + gtag), k2 = low(gtag);
         const Val* e = nullptr;
         if( m.count(k1) )
            e = &m[k1];
         else if( m.count(k2) )
            e = &m[k2];
         int gt = s.flip(0.15) ? 4 : type;  // 4: enum
         c.desc << fmt("%d: get(%s, prefix '%s', type %d)\n", k, gtag.c_str(), prefix.c_str(), gt);
         bool ret = false, threw = false;
         double nv = -12345.5;
         Index iv = -12345;
         bool bv = false;
         std::string sv = "?";
         bool typeok = !reg || (known && (gt >= 2 ? d.type >= 2 : gt == d.type));
         try
         {
            if( gt == 0 ) ret = o.GetNumericValue(gtag, nv, prefix);
            else if( gt == 1 ) ret = o.GetIntegerValue(gtag, iv, prefix);
            else if( gt == 2 ) ret = o.GetStringValue(gtag, sv, prefix);
            else if( gt == 3 ) ret = o.GetBoolValue(gtag, bv, prefix);
            else ret = o.GetEnumValue(gtag, iv, prefix);
         }
         catch( const IpoptException& )
         {
            threw = true;
         }
         if( !reg && ((e && e->num != (gt < 2)) || gt >= 3) )
            continue;
         if( !reg && e && gt == 1 && e->d != std::floor(e->d) )
            continue;
         if( !reg && e && gt == 1 && !(std::fabs(e->d) < 2e9 && (std::fabs(e->d) < 1e5 || false)) )
            continue;
         if( !typeok )
         {
            PBT_CHECK(c, threw, "type", "operation %d: wrong type or unknown name, but no exception", op);
            continue;
         }
         std::string cur = e ? e->s : d.ds;
         if( reg && gt >= 2 )
         {
            int ci = choice(d, cur);
            if( gt == 3 )
            {
               std::string t = ci >= 0 ? d.choices[ci] : cur;
               bool isb = t == "yes" || t == "no";
               if( wild(d) && ci >= 0 )
                  continue;
               PBT_CHECK(c, threw == !isb, "bool", "operation %d: '%s' asked as boolean", op, t.c_str());
               if( threw )
                  continue;
               PBT_CHECK(c, bv == (t == "yes"), "value", "operation %d: boolean %d for '%s'", op, bv, t.c_str());
            }
            else if( gt == 4 )
            {
               bool okk = ci >= 0 && !wild(d);
               if( wild(d) )
                  continue;   // enumerations with wildcard are not specified
               PBT_CHECK(c, !threw == okk, "enum", "operation %d: exception %d for enum of '%s'", op, threw, cur.c_str());
               if( threw )
                  continue;
               PBT_CHECK(c, iv == ci, "enum", "operation %d: index %d instead of %d", op, (int)iv, ci);
            }
            else
            {
               PBT_CHECK(c, !threw, "throws", "operation %d: exception", op);
               if( wild(d) && ci >= 0 && e )
                  PBT_CHECK(c, eqi(sv, cur), "value", "operation %d: '%s' instead of '%s'", op, sv.c_str(), cur.c_str());
               else
               {
                  std::string want = ci >= 0 ? (e ? d.choices[ci] : d.ds) : cur;
                  PBT_CHECK(c, sv == want, "value", "operation %d: '%s' instead of '%s'", op, sv.c_str(), want.c_str());
               }
            }
         }
         else
         {
            PBT_CHECK(c, !threw, "throws", "operation %d: exception", op);
            if( gt == 0 )
            {
               double want = e ? e->d : reg ? d.dn : -12345.5;
               PBT_CHECK(c, sameval(nv, want), "value", "operation %d: %.17g instead of %.17g", op, nv, want);
            }
            else if( gt == 1 )
            {
               double want = e ? e->d : reg ? d.dn : -12345;
               PBT_CHECK(c, iv == want, "value", "operation %d: %d instead of %.17g", op, (int)iv, want);
            }
            else if( gt == 2 && e )
               PBT_CHECK(c, sv == e->s, "value", "operation %d: '%s' instead of '%s'", op, sv.c_str(), e->s.c_str());
         }
         PBT_CHECK(c, ret == (e != nullptr), "found", "operation %d: returns %d, but value was %sset", op, ret, e ? "" : "not ");
      }
   }
   // everything stored is listed, with its value
   for( int k = 0; k < NL; ++k )
   {
      std::string all, user;
      L[k]->PrintList(all);
      L[k]->PrintUserOptions(user);
      for( int w = 0; w < 2; ++w )
      {
         std::map<std::string, std::string> seen;
         std::istringstream is(w ? user : all);
         std::string line;
         std::getline(is, line);
         while( std::getline(is, line) )
         {
            size_t p = line.find(" = ");
            PBT_CHECK(c, p != std::string::npos, "print", "line '%s' of the options list", line.c_str());
            size_t b = line.find_first_not_of(' ');
            std::string nm = line.substr(b, p - b), v = line.substr(p + 3);
            v = v.substr(0, v.find_last_of(' '));
            while( !v.empty() && v.back() == ' ' )
               v.pop_back();
            PBT_CHECK(c, !seen.count(nm), "print", "option %s listed twice", nm.c_str());
            seen[nm] = v;
         }
         size_t want = 0;
         for( auto& e : M[k] )
         {
            if( w && e.second.dontprint )
               continue;
            ++want;
            PBT_CHECK(c, seen.count(e.first), "print", "option %s not listed", e.first.c_str());
            std::string v = seen[e.first], t = e.second.s;
            while( !t.empty() && t.back() == ' ' )
               t.pop_back();
            if( e.second.num )
               PBT_CHECK(c, sameval(strtod(v.c_str(), nullptr), e.second.d), "print", "option %s listed with %s instead of %.17g", e.first.c_str(), v.c_str(), e.second.d);
            else
               PBT_CHECK(c, v == t, "print", "option %s listed with '%s' instead of '%s'", e.first.c_str(), v.c_str(), t.c_str());
         }
         PBT_CHECK(c, seen.size() == want, "print", "%d options listed instead of %d", (int)seen.size(), (int)want);
      }
   }
   c.nontrivial = sets >= 2 && gets >= 1;
   c.label(refused ? "with refusals" : "without refusals");
}
static void f_reg(Ctx& c) { run(c, true); }
static void f_noreg(Ctx& c) { run(c, false); }
int main(int argc, char** argv)
{
   pbt::Check k = {"P30", "history with at least two accepted settings and one query",
      {{"registered", f_reg, 60000, 5000000}, {"unregistered", f_noreg, 20000, 2000000}}
   };
   return pbt::run_main(argc, argv, k);
}
