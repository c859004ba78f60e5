// P32: registered options accept exactly their documented values; documentation lists them.
#include "pbt.hpp"
#include "IpIpoptApplication.hpp"
#include "IpRegOptions.hpp"
#include "IpOptionsList.hpp"
#include "IpJournalist.hpp"
#include <cmath>
#include <climits>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <regex>
#include <set>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

struct Def
{
   std::string name, cat, sh, lg;
   int type = -1;   // 0 number, 1 integer, 2 string
   bool adv = false, lo = false, hi = false, los = false, his = false;
   double l = 0, u = 0, dn = 0;
   std::string ds;
   std::vector<std::pair<std::string, std::string> > ch;
};
static std::string low(std::string s) { for( auto& c : s ) c = (char)tolower(c); return s; }
static bool eqi(const std::string& a, const std::string& b) { return low(a) == low(b); }
static std::string squeeze(const std::string& s)
{
   std::string r;
   for( char ch : s )
   {
      if( isspace((unsigned char)ch) )
      {
         if( !r.empty() && r.back() != ' ' )
            r += ' ';
      }
      else
         r += ch;
   }
   while( !r.empty() && r.back() == ' ' )
      r.pop_back();
   return r;
}
static std::string replace_all(std::string s, const std::string& a, const std::string& b)
{
   for( size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size() )
      s.replace(p, a.size(), b);
   return s;
}
// ---- parsers of the three formats: block of one option -> Def ----
static double num_plain(const std::string& s) { char* e; double v = strtod(s.c_str(), &e); return *e || s.empty() ? NAN : v; }
static double num_html(std::string s)
{
   s = replace_all(s, " &middot; 10<sup>", "e");
   if( s.compare(0, 7, "10<sup>") == 0 )
      s = "1e" + s.substr(7);
   else if( s.compare(0, 8, "-10<sup>") == 0 )
      s = "-1e" + s.substr(8);
   return num_plain(replace_all(s, "</sup>", ""));
}
static double num_latex(std::string s)
{
   s = replace_all(s, " \\cdot 10^{", "e");
   return num_plain(replace_all(s, "}", ""));
}
static bool parse_doxygen(const std::string& blk, Def& d)
{
   // "<strong>name</strong>[ (<em>advanced</em>)][: short]\n<blockquote>\n ... </blockquote>"
   size_t a = blk.find("<strong>"), b = blk.find("</strong>"), q = blk.find("<blockquote>"), e = blk.rfind("</blockquote>");
   if( a == std::string::npos || b == std::string::npos || q == std::string::npos || e == std::string::npos )
      return false;
   d.name = blk.substr(a + 8, b - a - 8);
   std::string head = squeeze(blk.substr(b + 9, q - b - 9));
   d.adv = head.compare(0, 22, "(<em>advanced</em>)") == 0 || head.find("(<em>advanced</em>)") == 0;
   if( d.adv )
      head = head.substr(19);
   d.sh = squeeze(head.size() > 1 && head[0] == ':' ? head.substr(2) : head);
   std::string body = blk.substr(q + 12, e - q - 12);
   size_t r;
   if( (r = body.rfind(" The default value for this string option is \"")) != std::string::npos )
   {
      d.type = 2;
      size_t p = body.find("\"", r) + 1, p2 = body.find("\".\n", p), v = body.find("Possible values:", p2);
      if( p2 == std::string::npos || v == std::string::npos )
         return false;
      d.ds = body.substr(p, p2 - p);
      d.lg = squeeze(body.substr(0, r));
      std::string vals = body.substr(v + 16);
      if( !vals.empty() && vals[0] == '\n' )
      {
         std::istringstream is(vals);
         std::string ln;
         while( std::getline(is, ln) )
            if( ln.compare(0, 3, " - ") == 0 )
            {
               size_t c = ln.find(": ");
               d.ch.push_back({squeeze(ln.substr(3, c == std::string::npos ? c : c - 3)), c == std::string::npos ? "" : squeeze(ln.substr(c + 2))});
            }
      }
      else
      {
         std::istringstream is(vals);
         std::string t;
         while( std::getline(is, t, ',') )
            d.ch.push_back({squeeze(t), ""});
      }
      return true;
   }
   d.type = 0;
   if( (r = body.rfind(" The valid range for this real option is ")) == std::string::npos )
   {
      d.type = 1;
      r = body.rfind(" The valid range for this integer option is ");
      if( r == std::string::npos )
         return false;
   }
   d.lg = squeeze(body.substr(0, r));
   size_t s0 = body.find(" option is ", r) + 11, df = body.find(" and its default value is ", s0);
   if( df == std::string::npos )
      return false;
   std::string range = body.substr(s0, df - s0), def = body.substr(df + 26);
   def = def.substr(0, def.rfind(".\n"));
   d.dn = num_html(def);
   if( range == "unrestricted" )
      return true;
   size_t n = range.find(d.name);
   if( n == std::string::npos )
      return false;
   std::string L = range.substr(0, n), U = range.substr(n + d.name.size());
   if( !L.empty() )
   {
      d.lo = true;
      size_t k = L.find(" &le; ");
      d.los = k == std::string::npos;
      if( d.los )
         k = L.find(" < ");
      d.l = num_html(L.substr(0, k));
   }
   if( !U.empty() )
   {
      d.hi = true;
      d.his = U.compare(0, 6, " &le; ") != 0;
      d.u = num_html(U.substr(d.his ? 3 : 6));
   }
   return true;
}
static bool parse_text(const std::string& blk, Def& d)
{
   size_t nl = blk.find('\n');
   std::string l0 = blk.substr(0, nl), rest = blk.substr(nl + 1);
   size_t b = l0.find_first_of(" (");
   size_t par = l0.find('(');
   if( par == std::string::npos || b == std::string::npos )
      return false;
   std::string adv = "   Advanced option for expert users.\n";
   d.adv = rest.compare(0, adv.size(), adv) == 0;
   if( d.adv )
      rest = rest.substr(adv.size());
   if( l0[par + 1] == '"' )
   {
      d.name = squeeze(l0.substr(0, par));
      d.type = 2;
      d.ds = l0.substr(par + 2, l0.rfind("\")") - par - 2);
      size_t v = rest.rfind("\n   Possible values:\n");
      if( v == std::string::npos )
         return false;
      d.sh = squeeze(rest.substr(0, v));    // short and long description together
      std::string vals = rest.substr(v + 21);
      size_t p = 0;
      while( (p = vals.find("    - ", p)) != std::string::npos )
      {
         size_t e = vals.find("\n    - ", p);
         std::string one = vals.substr(p + 6, e == std::string::npos ? e : e - p - 6);
         p += 6;
         size_t k = one.find(" [");
         std::string ds;
         if( k != std::string::npos )
         {
            ds = one.substr(k + 2);
            ds = squeeze(ds.substr(0, ds.rfind(']')));
            one = one.substr(0, k);
         }
         d.ch.push_back({squeeze(one), ds});
      }
      return true;
   }
   size_t pe = l0.find(')', par);
   std::string left = squeeze(l0.substr(0, par)), right = squeeze(l0.substr(pe + 1));
   d.dn = num_plain(squeeze(l0.substr(par + 1, pe - par - 1)));
   // left: "name lower <=" ; the name is at least 30 wide, longer names touch the number only if that fills its field
   d.type = 0;
   d.los = left.compare(left.size() - 2, 2, "<=") != 0;
   left = squeeze(left.substr(0, left.find_last_not_of("<= ") + 1));
   size_t sp = left.rfind(' ');
   if( sp == std::string::npos )
      return false;
   d.name = left.substr(0, sp);
   std::string L = left.substr(sp + 1);
   d.lo = L != "-inf";
   d.l = num_plain(L);
   d.his = right.compare(0, right[0] == ' ' ? 3 : 2, right[0] == ' ' ? " <=" : "<=") != 0;
   std::string U = squeeze(right.substr(right.find_first_not_of("<= ")));
   d.hi = U != "+inf";
   d.u = num_plain(U);
   if( !d.lo )
      d.los = false;
   if( !d.hi )
      d.his = false;
   d.sh = squeeze(rest);
   return true;
}
static std::string unlatex(const std::string& s) { return replace_all(replace_all(s, "\\_", "_"), "\\^", "^"); }
static bool parse_latex(const std::string& blk, Def& d)
{
   size_t lb = blk.find("\\label{opt:"), le = blk.find("}", lb);
   size_t pg = blk.find("\\paragraph{"), pe = blk.find(":}", pg);
   if( lb == std::string::npos || pg == std::string::npos )
      return false;
   d.name = blk.substr(lb + 11, le - lb - 11);
   if( unlatex(blk.substr(pg + 11, pe - pg - 11)) != d.name )
      return false;
   size_t sl = blk.find(" \\\\\n", le);
   std::string head = blk.substr(le + 2, sl - le - 2);
   d.adv = head.compare(0, 11, "(advanced) ") == 0;
   if( d.adv )
      head = head.substr(11);
   d.sh = head == "~" ? "" : squeeze(unlatex(head));
   std::string body = blk.substr(sl + 4);
   size_t r;
   if( (r = body.rfind(" The default value for this string option is \"")) != std::string::npos )
   {
      d.type = 2;
      size_t p = body.find("\"", r) + 1, p2 = body.find("\".\n", p), v = body.find("\\begin{itemize}\n", p2), e = body.find("\\end{itemize}", p2);
      if( p2 == std::string::npos || v == std::string::npos || e == std::string::npos )
         return false;
      d.ds = unlatex(body.substr(p, p2 - p));
      d.lg = squeeze(unlatex(body.substr(0, r)));
      std::istringstream is(body.substr(v, e - v));
      std::string ln;
      while( std::getline(is, ln) )
         if( ln.find("\\item ") != std::string::npos )
         {
            ln = unlatex(ln.substr(ln.find("\\item ") + 6));
            size_t c = ln.find(": ");
            d.ch.push_back({squeeze(ln.substr(0, c)), c == std::string::npos ? "" : squeeze(ln.substr(c + 2))});
         }
      return true;
   }
   d.type = 0;
   if( (r = body.rfind(" The valid range for this real option is ")) == std::string::npos )
   {
      d.type = 1;
      r = body.rfind(" The valid range for this integer option is");
      if( r == std::string::npos )
         return false;
   }
   d.lg = squeeze(unlatex(body.substr(0, r)));
   size_t s0 = body.find("$", r) + 1, s1 = body.find("$", s0), t0 = body.find("$", s1 + 1) + 1, t1 = body.find("$", t0);
   if( t1 == std::string::npos )
      return false;
   d.dn = num_latex(body.substr(t0, t1 - t0));
   std::string range = body.substr(s0, s1 - s0);
   size_t n = range.find("{\\tt " + replace_all(replace_all(d.name, "_", "\\_"), "^", "\\^") + " }");
   if( n == std::string::npos )
      return false;
   std::string L = squeeze(range.substr(0, n)), U = squeeze(range.substr(range.find(" }", n) + 2));
   d.los = L.find("\\le") == std::string::npos;
   L = squeeze(L.substr(0, d.los ? L.rfind('<') : L.rfind("\\le")));
   d.lo = L != "{\\tt -inf}";
   d.l = num_latex(L);
   if( !U.empty() && U[0] == ' ' )
      U = U.substr(1);
   d.his = U.compare(0, 3, "\\le") != 0;
   U = U.substr(d.his ? 1 : 3);
   U = U.substr(U.find_first_not_of(' '));
   d.hi = U != "{\\tt +inf}";
   d.u = num_latex(U);
   if( !d.lo )
      d.los = false;
   if( !d.hi )
      d.his = false;
   return true;
}
static bool near(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-5 * std::fabs(b); }
static std::string nospace(const std::string& s) { std::string r; for( char c : s ) if( !isspace((unsigned char)c) && c != '-' ) r += c; return r; }
/** compare documented entry with truth; text: descriptions may be broken over lines */
static std::string differ(const Def& g, const Def& d, int mode, bool real)
{
   if( g.name != d.name ) return "name " + g.name;
   if( g.adv != d.adv ) return "advanced flag";
   if( mode == 0 ? (g.type == 2) != (d.type == 2) : g.type != d.type ) return "type";
   if( d.type < 2 )
   {
      if( g.lo != d.lo || (d.lo && (!near(g.l, d.l) || g.los != d.los)) ) return "lower bound";
      if( g.hi != d.hi || (d.hi && (!near(g.u, d.u) || g.his != d.his)) ) return "upper bound";
      if( !near(g.dn, d.dn) ) return fmt("default %g", g.dn);
   }
   else
   {
      if( g.ds != d.ds ) return "default '" + g.ds + "'";
      if( g.ch.size() != d.ch.size() ) return fmt("number of choices %d", (int)g.ch.size());
      for( size_t i = 0; i < g.ch.size(); ++i )
      {
         if( g.ch[i].first != d.ch[i].first ) return "choice '" + g.ch[i].first + "'";
         if( real ? false : mode == 0 ? nospace(g.ch[i].second) != nospace(d.ch[i].second) : g.ch[i].second != squeeze(d.ch[i].second) ) return "description of choice '" + g.ch[i].second + "' instead of '" + d.ch[i].second + "'";
      }
   }
   if( real )
      return "";
   if( mode == 0 ? nospace(g.sh) != nospace(d.sh + d.lg) : g.sh != squeeze(d.sh) || g.lg != (d.lg.empty() ? "" : squeeze(" " + d.lg)) )
      return "description '" + g.sh + "|" + g.lg + "' instead of '" + d.sh + "|" + d.lg + "'";
   return "";
}
static Def of(const RegisteredOption& o)
{
   Def d;
   d.name = o.Name();
   d.type = o.Type() == OT_Number ? 0 : o.Type() == OT_Integer ? 1 : 2;
   d.adv = o.Advanced();
   d.sh = o.ShortDescription(), d.lg = o.LongDescription();
   if( d.type == 2 )
   {
      d.ds = o.DefaultString();
      for( auto& e : o.GetValidStrings() )
         d.ch.push_back({e.value_, e.description_});
      return d;
   }
   d.lo = o.HasLower(), d.hi = o.HasUpper();
   if( d.type == 0 )
   {
      if( d.lo ) d.los = o.LowerStrict(), d.l = o.LowerNumber();
      if( d.hi ) d.his = o.UpperStrict(), d.u = o.UpperNumber();
      d.dn = o.DefaultNumber();
   }
   else
   {
      if( d.lo ) d.l = o.LowerInteger();
      if( d.hi ) d.u = o.UpperInteger();
      d.dn = o.DefaultInteger();
   }
   return d;
}
static std::string text_of(pbt::Src& s, int maxwords)
{
   static const char* w[] = {"the", "value", "of", "mu_init", "x^2", "100", "a", "tolerance", "averyveryverylongwordthatdoesnotfitinonelineatallandmustbesplitoverlines", "100", "is", "in"};
   std::string r;
   int k = s.integer(0, maxwords);
   for( int i = 0; i < k; ++i )
      r += (i ? " " : "") + std::string(w[s.below(12)]);
   return r;
}
static double gen_num(pbt::Src& s)
{
   switch( s.below(6) )
   {
      case 0: return s.integer(-3, 10);
      case 1: return s.real(-5, 5);
      case 2: return s.logreal(1e-20, 1e20);
      case 3: return std::pow(10., s.integer(-20, 20)) * (s.flip() ? 1 : -1);
      case 4: return -s.logreal(1e-20, 1e20);
      default: return 1e6 * s.integer(-3, 3);
   }
}
static std::vector<Def> gen_defs(Ctx& c)
{
   pbt::Src& s = c.src;
   static const char* bases[] = {"tol", "max_iter", "mu_init", "file_name", "flag", "zeta", "tolx", "a", "a_really_quite_long_optio", "b_c"};
   static const char* cats[] = {"Output", "NLP & Co", "", "Warm Start", "Undoc", "ZZ"};
   int prio[] = {s.integer(0, 3), s.integer(0, 3), 0, s.integer(0, 3), -1, s.integer(-1, 3)};
   std::vector<Def> v(s.integer(1, 10));
   c.desc << "priorities";
   for( int i = 0; i < 6; ++i )
      c.desc << " " << prio[i];
   c.desc << "\n";
   for( size_t i = 0; i < v.size(); ++i )
   {
      Def& d = v[i];
      d.name = bases[i];
      int k = s.below(6);
      d.cat = fmt("%d", prio[k]) + "|" + cats[k];
      d.adv = s.flip(0.3);
      d.sh = text_of(s, 10);
      d.lg = s.flip() ? text_of(s, 40) : "";
      d.type = s.below(3);
      if( d.type < 2 )
      {
         d.lo = s.flip(0.6), d.hi = s.flip(0.6);
         double a = d.type ? s.integer(-50, 50) : gen_num(s), b = d.type ? a + s.integer(0, 10) : a + std::fabs(gen_num(s)) + 1e-3 * std::fabs(a);
         if( d.type && s.flip(0.1) ) a = INT_MIN;
         if( d.type && s.flip(0.1) ) b = INT_MAX;
         d.l = a, d.u = b;
         d.los = d.type == 0 && d.lo && s.flip(), d.his = d.type == 0 && d.hi && s.flip();
         switch( s.below(3) )
         {
            case 0: d.dn = d.los ? (d.his || !d.hi ? a + 0.5 * (b - a) : b) : a; break;
            case 1: d.dn = d.his ? a + 0.5 * (b - a) : b; break;
            default: d.dn = d.type ? std::floor(a + s.unit() * (b - a)) : a + (0.01 + 0.98 * s.unit()) * (b - a);
         }
      }
      else
      {
         static const char* ch[] = {"none", "exact", "limited-memory", "Mixed_Case", "adaptive", "*", "yes", "no", "m_x^2", "q", "r", "s"};
         int k2 = s.integer(1, 12);
         std::vector<int> pm = s.perm(12);
         for( int j = 0; j < k2; ++j )
            d.ch.push_back({ch[pm[j]], s.flip() ? text_of(s, 12) : ""});
         d.ds = d.ch[s.below(k2)].first;
      }
      c.desc << fmt("%s type %d cat '%s' adv %d", d.name.c_str(), d.type, d.cat.c_str(), d.adv);
      if( d.type < 2 )
         c.desc << fmt(" lower %d %d %.17g upper %d %d %.17g default %.17g\n", d.lo, d.los, d.l, d.hi, d.his, d.u, d.dn);
      else
      {
         c.desc << " default " << d.ds << ", choices";
         for( auto& e : d.ch )
            c.desc << " " << e.first << "[" << e.second << "]";
         c.desc << "\n";
      }
   }
   return v;
}
static void do_register(RegisteredOptions& r, const std::vector<Def>& v, pbt::Src& s)
{
   for( auto& d : v )
   {
      int pr = atoi(d.cat.c_str());
      r.SetRegisteringCategory(d.cat.substr(d.cat.find('|') + 1), pr);
      if( d.type == 0 )
      {
         if( d.lo && d.hi ) r.AddBoundedNumberOption(d.name, d.sh, d.l, d.los, d.u, d.his, d.dn, d.lg, d.adv);
         else if( d.lo ) r.AddLowerBoundedNumberOption(d.name, d.sh, d.l, d.los, d.dn, d.lg, d.adv);
         else if( d.hi ) r.AddUpperBoundedNumberOption(d.name, d.sh, d.u, d.his, d.dn, d.lg, d.adv);
         else r.AddNumberOption(d.name, d.sh, d.dn, d.lg, d.adv);
      }
      else if( d.type == 1 )
      {
         if( d.lo && d.hi ) r.AddBoundedIntegerOption(d.name, d.sh, (Index)d.l, (Index)d.u, (Index)d.dn, d.lg, d.adv);
         else if( d.lo ) r.AddLowerBoundedIntegerOption(d.name, d.sh, (Index)d.l, (Index)d.dn, d.lg, d.adv);
         else if( d.hi ) r.AddUpperBoundedIntegerOption(d.name, d.sh, (Index)d.u, (Index)d.dn, d.lg, d.adv);
         else r.AddIntegerOption(d.name, d.sh, (Index)d.dn, d.lg, d.adv);
      }
      else
      {
         auto& k = d.ch;
#define K(i) k[i].first, k[i].second
         if( d.ch.size() == 2 && d.ch[0].first == "yes" && d.ch[1].first == "no" && d.ch[0].second.empty() && d.ch[1].second.empty() )
            r.AddBoolOption(d.name, d.sh, d.ds == "yes", d.lg, d.adv);
         else
         switch( s.flip(0.8) ? k.size() : 99 )
         {
            case 1: r.AddStringOption1(d.name, d.sh, d.ds, K(0), d.lg, d.adv); break;
            case 2: r.AddStringOption2(d.name, d.sh, d.ds, K(0), K(1), d.lg, d.adv); break;
            case 3: r.AddStringOption3(d.name, d.sh, d.ds, K(0), K(1), K(2), d.lg, d.adv); break;
            case 4: r.AddStringOption4(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), d.lg, d.adv); break;
            case 5: r.AddStringOption5(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), d.lg, d.adv); break;
            case 6: r.AddStringOption6(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), K(5), d.lg, d.adv); break;
            case 7: r.AddStringOption7(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), K(5), K(6), d.lg, d.adv); break;
            case 8: r.AddStringOption8(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), K(5), K(6), K(7), d.lg, d.adv); break;
            case 9: r.AddStringOption9(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), K(5), K(6), K(7), K(8), d.lg, d.adv); break;
            case 10: r.AddStringOption10(d.name, d.sh, d.ds, K(0), K(1), K(2), K(3), K(4), K(5), K(6), K(7), K(8), K(9), d.lg, d.adv); break;
            default:
            {
               std::vector<std::string> a, b;
               for( auto& e : k )
                  a.push_back(e.first), b.push_back(e.second);
               r.AddStringOption(d.name, d.sh, d.ds, a, b, d.lg, d.adv);
            }
         }
      }
   }
}
static std::vector<std::string> blocks(const std::string& doc, int mode)
{
   // cut into options
   std::vector<std::string> b;
   if( mode == 0 )
   {
      // an option starts with a line whose first character is not a blank and not '#'
      std::istringstream is(doc);
      std::string ln;
      bool in = false;
      while( std::getline(is, ln) )
      {
         if( !ln.empty() && ln[0] == '#' )
            in = false;
         else if( !ln.empty() && ln[0] != ' ' )
         {
            b.push_back("");
            in = true;
         }
         if( in )
            b.back() += ln + "\n";
      }
      return b;
   }
   std::string key = mode == 1 ? "\\paragraph{" : "\\anchor OPT_";
   size_t p = doc.find(key);
   while( p != std::string::npos )
   {
      size_t e = doc.find(key, p + 1);
      b.push_back(doc.substr(p, e == std::string::npos ? e : e - p));
      p = e;
   }
   return b;
}
static std::string print_docs(SmartPtr<RegisteredOptions> ro, int mode, bool adv, int minprio)
{
   // options that choose the format come from the registry of an application
   SmartPtr<RegisteredOptions> ao = new RegisteredOptions();
   ao->AddStringOption3("print_options_mode", "", "text", "text", "", "latex", "", "doxygen", "");
   ao->AddBoolOption("print_advanced_options", "", false);
   SmartPtr<OptionsList> ol = new OptionsList(ao, SmartPtr<Journalist>());
   static const char* m[] = {"text", "latex", "doxygen"};
   ol->SetStringValue("print_options_mode", m[mode]);
   ol->SetBoolValue("print_advanced_options", adv);
   SmartPtr<Journalist> jn = new Journalist();
   SmartPtr<StreamJournal> sj = new StreamJournal("s", J_ALL);
   std::ostringstream os;
   sj->SetOutputStream(&os);
   sj->SetPrintLevel(J_DOCUMENTATION, J_ALL);
   jn->AddJournal(GetRawPtr(sj));
   ro->OutputOptionDocumentation(*jn, ol, minprio);
   return os.str();
}
static bool parse(const std::string& b, int mode, Def& d) { return mode == 0 ? parse_text(b, d) : mode == 1 ? parse_latex(b, d) : parse_doxygen(b, d); }

static void f_docs(Ctx& c)
{
   pbt::Src& s = c.src;
   std::vector<Def> v = gen_defs(c);
   SmartPtr<RegisteredOptions> ro = new RegisteredOptions();
   do_register(*ro, v, s);
   int mode = s.below(3), minp = s.integer(-1, 2);
   bool adv = s.flip();
   c.desc << "mode " << mode << " advanced " << adv << " min priority " << minp << "\n";
   std::string doc = print_docs(ro, mode, adv, minp);
   if( c.verbose )
      puts(doc.c_str());
   std::map<std::string, int> prio;
   for( auto& d : v )
   {
      std::string cn = d.cat.substr(d.cat.find('|') + 1);
      if( !prio.count(cn) )
         prio[cn] = atoi(d.cat.c_str());
   }
   std::map<std::string, const Def*> want;
   for( auto& d : v )
   {
      std::string cn = d.cat.substr(d.cat.find('|') + 1);
      if( !cn.empty() && prio[cn] >= minp && (adv || !d.adv) )
         want[d.name] = &d;
   }
   std::set<std::string> seen;
   for( auto& b : blocks(doc, mode) )
   {
      Def g;
      PBT_CHECK(c, parse(b, mode, g), "unreadable", "cannot read the documentation (mode %d):\n%s", mode, b.c_str());
      PBT_CHECK(c, want.count(g.name), "extra", "option '%s' should not be listed", g.name.c_str());
      PBT_CHECK(c, seen.insert(g.name).second, "twice", "option '%s' listed twice", g.name.c_str());
      std::string e = differ(g, *want[g.name], mode, false);
      PBT_CHECK(c, e.empty(), "docs", "documentation of '%s' (mode %d) differs: %s", g.name.c_str(), mode, e.c_str());
   }
   PBT_CHECK(c, seen.size() == want.size(), "missing", "%d options listed instead of %d", (int)seen.size(), (int)want.size());
   c.nontrivial = want.size() >= 2;
}
static void probe(Ctx& c, const RegisteredOption& o, const Def& d, OptionsList* ol)
{
   // is a value accepted exactly if the documentation says so
   pbt::Src& s = c.src;
   if( d.type < 2 )
   {
      double x;
      double base = s.flip() ? d.l : d.u;
      switch( s.below(8) )
      {
         case 0: x = base; break;
         case 1: x = d.type ? base + 1 : std::nextafter(base, HUGE_VAL); break;
         case 2: x = d.type ? base - 1 : std::nextafter(base, -HUGE_VAL); break;
         case 3: x = gen_num(s); break;
         case 4: x = d.dn; break;
         case 5: x = base * (1 + 1e-9 * s.real(-1, 1)); break;
         case 6: x = s.flip() ? INFINITY : -INFINITY; break;
         default: x = s.real(-3, 3);
      }
      if( d.type == 1 )
         x = (Index)std::max(-2147483648., std::min(2147483647., std::floor(x)));
      bool ok = (!d.lo || (d.los ? x > d.l : x >= d.l)) && (!d.hi || (d.his ? x < d.u : x <= d.u));
      bool got = d.type ? o.IsValidIntegerSetting((Index)x) : o.IsValidNumberSetting(x);
      c.desc << fmt("probe %s with %.17g\n", d.name.c_str(), x);
      PBT_CHECK(c, got == ok, "validity", "option %s: value %.17g %s", d.name.c_str(), x, got ? "accepted" : "refused");
      if( ol )
      {
         bool r = d.type ? ol->SetIntegerValue(d.name, (Index)x) : ol->SetNumericValue(d.name, x);
         PBT_CHECK(c, r == ok, "validity-list", "option %s: value %.17g %s", d.name.c_str(), x, r ? "accepted" : "refused");
      }
      c.label(ok ? "accepted" : "refused");
   }
   else
   {
      bool wild = false;
      for( auto& e : d.ch )
         wild = wild || e.first == "*";
      std::string v = s.flip(0.7) ? d.ch[s.below(d.ch.size())].first : s.flip() ? d.ch[0].first + "x" : s.flip() ? "" : std::string("foo");
      if( s.flip(0.3) && !v.empty() )
         v = v.substr(0, v.size() - 1);
      if( s.flip() )
         for( auto& ch : v )
            ch = (char)(s.flip() ? toupper(ch) : tolower(ch));
      int idx = -1;
      for( size_t i = 0; i < d.ch.size() && idx < 0; ++i )
         if( eqi(d.ch[i].first, v) )
            idx = (int)i;
      bool ok = wild || idx >= 0;
      c.desc << "probe " << d.name << " with '" << v << "'\n";
      bool got = o.IsValidStringSetting(v);
      PBT_CHECK(c, got == ok, "validity", "option %s: value '%s' %s", d.name.c_str(), v.c_str(), got ? "accepted" : "refused");
      if( ok )
      {
         std::string m = o.MapStringSetting(v);
         PBT_CHECK(c, idx >= 0 && !wild ? m == d.ch[idx].first : eqi(m, v), "map", "option %s: '%s' mapped to '%s'", d.name.c_str(), v.c_str(), m.c_str());
      }
      if( !wild )
      {
         Index e = -1;
         bool threw = false;
         try
         {
            e = o.MapStringSettingToEnum(v);
         }
         catch( const IpoptException& )
         {
            threw = true;
         }
         PBT_CHECK(c, threw == !ok && (!ok || e == idx), "enum", "option %s: '%s' gives index %d (exception %d) instead of %d", d.name.c_str(), v.c_str(), (int)e, threw, idx);
      }
      if( ol )
      {
         bool r = ol->SetStringValue(d.name, v);
         PBT_CHECK(c, r == ok, "validity-list", "option %s: value '%s' %s", d.name.c_str(), v.c_str(), r ? "accepted" : "refused");
      }
      c.label(ok ? "accepted" : "refused");
   }
}
static void f_values(Ctx& c)
{
   pbt::Src& s = c.src;
   std::vector<Def> v = gen_defs(c);
   SmartPtr<RegisteredOptions> ro = new RegisteredOptions();
   do_register(*ro, v, s);
   SmartPtr<OptionsList> ol = new OptionsList(ro, SmartPtr<Journalist>());
   for( int i = 0; i < 6; ++i )
   {
      const Def& d = v[s.below(v.size())];
      std::string pre = s.flip(0.2) ? "resto." : "";
      SmartPtr<const RegisteredOption> o = ro->GetOption(pre + d.name);
      PBT_CHECK(c, IsValid(o), "lookup", "option %s not found", d.name.c_str());
      std::string e = differ(of(*o), d, 2, true);
      PBT_CHECK(c, e.empty(), "accessor", "registered option %s differs: %s", d.name.c_str(), e.c_str());
      if( s.flip(0.3) )
      {
         RegisteredOption cp(*o);
         e = differ(of(cp), d, 2, true);
         PBT_CHECK(c, e.empty(), "copy", "copy of registered option %s differs: %s", d.name.c_str(), e.c_str());
         probe(c, cp, d, nullptr);
      }
      else
         probe(c, *o, d, GetRawPtr(ol));
      if( d.type == 2 && s.flip(0.3) )
      {
         bool wild = false;
         int idx = -1;
         for( size_t k = 0; k < d.ch.size(); ++k )
         {
            wild = wild || d.ch[k].first == "*";
            if( d.ch[k].first == d.ds )
               idx = (int)k;
         }
         if( !wild )
            PBT_CHECK(c, o->DefaultStringAsEnum() == idx, "enum", "default of %s has index %d instead of %d", d.name.c_str(), (int)o->DefaultStringAsEnum(), idx);
      }
      // registering the same name again is refused and changes nothing
      if( s.flip(0.1) )
      {
         bool threw = false;
         try
         {
            ro->AddNumberOption(d.name, "other", 17.);
         }
         catch( const IpoptException& )
         {
            threw = true;
         }
         PBT_CHECK(c, threw, "duplicate", "option %s registered twice", d.name.c_str());
         e = differ(of(*ro->GetOption(d.name)), d, 2, true);
         PBT_CHECK(c, e.empty(), "duplicate", "option %s changed by second registration: %s", d.name.c_str(), e.c_str());
      }
   }
   PBT_CHECK(c, ro->RegisteredOptionsList().size() == v.size(), "count", "%d options registered instead of %d", (int)ro->RegisteredOptionsList().size(), (int)v.size());
   c.nontrivial = v.size() >= 2;
}
// the options of Ipopt itself against the manual
static std::map<std::string, Def>& manual()
{
   static std::map<std::string, Def> m;
   if( m.empty() )
   {
      const char* r = getenv("VERIF_REPO");
      std::ifstream f(std::string(r ? r : "/repo") + "/doc/options.dox");
      std::stringstream ss;
      ss << f.rdbuf();
      for( auto& b : blocks(ss.str(), 2) )
      {
         Def d;
         if( parse_doxygen(b, d) )
            m[d.name] = d;
      }
   }
   return m;
}
static bool build_dependent(const std::string& n)
{
   static const char* k[] = {"linear_solver", "linear_system_scaling", "linear_scaling_on_demand", "hsllib", "pardisolib", "option_file_name", "dependency_detector", "ma77_order", "ma86_order", "ma97_order"};
   for( auto s : k )
      if( n.find(s) != std::string::npos )
         return true;
   return n.compare(0, 6, "mumps_") == 0 && false;
}
static void f_real(Ctx& c)
{
   pbt::Src& s = c.src;
   static SmartPtr<IpoptApplication> app;
   static std::vector<SmartPtr<RegisteredOption> > all;
   if( IsNull(app) )
   {
      app = new IpoptApplication(false);
      for( auto& e : app->RegOptions()->RegisteredOptionsList() )
         all.push_back(e.second);
   }
   SmartPtr<RegisteredOption> o = all[s.below(all.size())];
   std::string n = o->Name();
   Def d = of(*o);
   bool wild = false;
   for( auto& e : d.ch )
      wild = wild || e.first == "*";
   // defaults are valid
   if( d.type == 0 )
      PBT_CHECK(c, o->IsValidNumberSetting(d.dn), "default-invalid", "default %g of %s is not valid", d.dn, n.c_str());
   else if( d.type == 1 )
      PBT_CHECK(c, o->IsValidIntegerSetting((Index)d.dn), "default-invalid", "default %g of %s is not valid", d.dn, n.c_str());
   else
      PBT_CHECK(c, o->IsValidStringSetting(d.ds), "default-invalid", "default '%s' of %s is not valid", d.ds.c_str(), n.c_str());
   SmartPtr<OptionsList> ol = new OptionsList(app->RegOptions(), SmartPtr<Journalist>());
   Number nv = 0;
   Index iv = 0;
   std::string sv;
   bool set = d.type == 0 ? ol->GetNumericValue(n, nv, "") : d.type == 1 ? ol->GetIntegerValue(n, iv, "") : ol->GetStringValue(n, sv, "");
   PBT_CHECK(c, !set && (d.type == 0 ? nv == d.dn : d.type == 1 ? iv == d.dn : eqi(sv, d.ds)), "default", "list does not return the default of %s", n.c_str());
   auto it = manual().find(n);
   c.desc << n << "\n";
   if( it != manual().end() && !build_dependent(n) )
   {
      std::string e = differ(d, it->second, 2, true);
      PBT_CHECK(c, e.empty(), ("manual-" + n).c_str(), "option %s differs from the manual: %s", n.c_str(), e.c_str());
      c.label("in the manual");
      c.nontrivial = true;
   }
   else
      c.label("not in the manual");
   probe(c, *o, d, GetRawPtr(ol));
   c.nontrivial = true;
}
static void f_realdocs(Ctx& c)
{
   pbt::Src& s = c.src;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   int mode = s.below(3);
   bool adv = s.flip();
   c.desc << "mode " << mode << " advanced " << adv << "\n";
   std::string doc = print_docs(app->RegOptions(), mode, adv, 0);
   std::set<std::string> seen;
   for( auto& b : blocks(doc, mode) )
   {
      Def g;
      PBT_CHECK(c, parse(b, mode, g), "unreadable", "cannot read the documentation (mode %d):\n%s", mode, b.c_str());
      SmartPtr<const RegisteredOption> o = app->RegOptions()->GetOption(g.name);
      PBT_CHECK(c, IsValid(o), "extra", "option '%s' is not registered", g.name.c_str());
      PBT_CHECK(c, seen.insert(g.name).second, "twice", "option '%s' listed twice", g.name.c_str());
      std::string e = differ(g, of(*o), mode, true);
      PBT_CHECK(c, e.empty(), "docs", "documentation of '%s' (mode %d) differs: %s", g.name.c_str(), mode, e.c_str());
   }
   for( auto& e : app->RegOptions()->RegisteredOptionsList() )
   {
      const RegisteredOption& o = *e.second;
      bool cat = false;
      int pr = -1;
      for( auto& k : app->RegOptions()->RegisteredCategories() )
         for( auto& q : k.second->RegisteredOptions() )
            if( GetRawPtr(q) == &o )
               cat = true, pr = k.second->Priority();
      bool w = cat && pr >= 0 && (adv || !o.Advanced());
      PBT_CHECK(c, seen.count(e.first) == (size_t)w, "missing", "option %s %s (mode %d)", e.first.c_str(), w ? "not listed" : "listed", mode);
   }
   c.nontrivial = true;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P32", "registry with at least two options (that are listed); real option probed",
      {{"docs", f_docs, 60000, 800000}, {"values", f_values, 150000, 2000000}, {"real", f_real, 40000, 1000000}, {"realdocs", f_realdocs, 60, 2000}}
   };
   return pbt::run_main(argc, argv, k);
}
