// P31: option files are read token for token and errors are reported.
#include "pbt.hpp"
#include "IpIpoptApplication.hpp"
#include "IpRegOptions.hpp"
#include <climits>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <unistd.h>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

struct Rop { std::string name; SmartPtr<RegisteredOption> o; };
static std::vector<Rop>& regs(IpoptApplication& app)
{
   static std::vector<Rop> v;
   v.clear();
   for( auto& e : app.RegOptions()->RegisteredOptionsList() )
      v.push_back({e.first, e.second});
   return v;
}
static bool noisy(const std::string& n)
{
   return n == "output_file" || n == "print_options_documentation" || n == "option_file_name" || n == "print_level" || n == "suppress_all_output" || n == "file_print_level" || n == "print_user_options" || n == "file_append";
}
static std::string lower(std::string s) { for( auto& c : s ) c = (char)tolower((unsigned char)c); return s; }
static bool has(const RegisteredOption& o, const std::string& v, std::string* canon = nullptr)
{
   for( auto& e : o.GetValidStrings() )
      if( lower(e.value_) == lower(v) || e.value_ == "*" )
      {
         if( canon )
            *canon = e.value_ == "*" ? v : e.value_;
         if( e.value_ != "*" )
            return true;
      }
   for( auto& e : o.GetValidStrings() )
      if( e.value_ == "*" )
         return true;
   return false;
}
struct Want { int type; double d; std::string s; };   // type 0 number 1 integer 2 string
static bool convert(const RegisteredOption& o, std::string text, Want& w)
{
   if( o.Type() == OT_String )
   {
      w.type = 2;
      w.s = text;
      return has(o, text, &w.s);
   }
   // optional white space inside quotes is harmless
   size_t b = text.find_first_not_of(" \t\r\n\v\f"), e = text.find_last_not_of(" \t\r\n\v\f");
   if( b == std::string::npos )
      return false;
   std::string t = text.substr(b, e - b + 1);
   if( o.Type() == OT_Integer )
   {
      w.type = 1;
      size_t k = (t[0] == '+' || t[0] == '-') ? 1 : 0;
      if( k == t.size() )
         return false;
      for( size_t i = k; i < t.size(); ++i )
         if( !isdigit((unsigned char)t[i]) )
            return false;
      w.d = strtod(t.c_str(), nullptr);
      if( !(w.d >= INT_MIN && w.d <= INT_MAX) )
         return false;
      return (!o.HasLower() || w.d >= o.LowerInteger()) && (!o.HasUpper() || w.d <= o.UpperInteger());
   }
   w.type = 0;
   for( auto& ch : t )
      if( ch == 'd' || ch == 'D' )
         ch = 'e';
   char* end;
   w.d = strtod(t.c_str(), &end);
   if( end == t.c_str() || *end )
      return false;
   if( (o.HasLower() || o.HasUpper()) && w.d != w.d )
      return false;
   if( o.HasLower() && !(o.LowerStrict() ? w.d > o.LowerNumber() : w.d >= o.LowerNumber()) )
      return false;
   if( o.HasUpper() && !(o.UpperStrict() ? w.d < o.UpperNumber() : w.d <= o.UpperNumber()) )
      return false;
   return true;
}
/** reference: tokens of the file; false if a quoted token is not closed; odd if a quote ends inside a token */
static bool tokens(const std::string& t, std::vector<std::string>& v, bool& odd)
{
   size_t i = 0, n = t.size();
   auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
   for( ;; )
   {
      while( i < n && (sp(t[i]) || t[i] == '#') )
         if( t[i] == '#' )
            while( i < n && t[i] != '\n' )
               ++i;
         else
            ++i;
      if( i >= n )
         return true;
      std::string tok;
      if( t[i] == '"' )
      {
         size_t e = t.find('"', i + 1);
         if( e == std::string::npos )
         {
            v.push_back(t.substr(i + 1));
            if( v.back().empty() )
               odd = true;
            return false;
         }
         tok = t.substr(i + 1, e - i - 1);
         i = e + 1;
         if( i < n && !sp(t[i]) )
            odd = true;
         while( i < n && !sp(t[i]) )
            tok += t[i++];
      }
      else
         while( i < n && !sp(t[i]) )
            tok += t[i++];
      v.push_back(tok);
   }
}
static double stored(OptionsList& o, const std::string& n) { Number v; o.GetNumericValue(n, v, ""); return v; }

// reads text in one of three ways and compares everything with the reference
static void read_compare(Ctx& c, const std::string& text, int way, bool clobber, std::map<std::string, Want> state)
{
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   SmartPtr<OptionsList> o = app->Options();
   // values set before reading
   for( auto& e : state )
   {
      bool r = e.second.type == 0 ? o->SetNumericValue(e.first, e.second.d) : e.second.type == 1 ? o->SetIntegerValue(e.first, (Index)e.second.d) : o->SetStringValue(e.first, e.second.s);
      PBT_CHECK(c, r, "setup", "%s refused", e.first.c_str());
   }
   std::vector<std::string> tk;
   bool odd = false;
   bool good = tokens(text, tk, odd);
   if( odd )
      c.label("quote inside token");
   std::map<std::string, bool> locked;
   size_t npair = 0;
   std::string why;
   if( !good && tk.size() % 2 == 1 )
   {
      tk.pop_back();
      why = "unterminated name";
   }
   else if( !good )
   {
      tk.pop_back();
      tk.pop_back();
      why = "unterminated value";
   }
   bool ok = good;
   for( size_t i = 0; i < tk.size(); i += 2 )
   {
      if( i + 1 >= tk.size() )
      {
         ok = false;
         why = "no value";
         break;
      }
      SmartPtr<const RegisteredOption> ro = app->RegOptions()->GetOption(tk[i]);
      Want w;
      w.d = 0;
      if( IsNull(ro) || !convert(*ro, tk[i + 1], w) )
      {
         ok = false;
         why = IsNull(ro) ? "unknown name " + tk[i] : "invalid value '" + tk[i + 1] + "' of " + tk[i];
         break;
      }
      std::string key = lower(tk[i]);
      if( !locked[key] )
      {
         state[key] = w;
         locked[key] = !clobber;
      }
      ++npair;
   }
   c.desc << " reference: " << npair << " settings, " << (ok ? "ok" : why) << "\n";
   c.nontrivial = npair >= 1;
   c.label(ok ? "valid" : "invalid");
   bool res = false;
   if( way == 0 )
   {
      std::istringstream is(text);
      try
      {
         res = o->ReadFromStream(*app->Jnlst(), is, clobber);
      }
      catch( const OPTION_INVALID& )
      {
      }
   }
   else
   {
      ApplicationReturnStatus st;
      if( way == 1 )
      {
         std::istringstream is(text);
         st = app->Initialize(is, clobber);
      }
      else
      {
         std::string fn = pbt::scratch() + fmt("/opt.%d", (int)getpid());
         {
            std::ofstream f(fn, std::ios::binary);
            f << text;
         }
         st = app->Initialize(fn, clobber);
         unlink(fn.c_str());
      }
      PBT_CHECK(c, st == Solve_Succeeded || st == Invalid_Option, "status", "Initialize returns %d", (int)st);
      res = st == Solve_Succeeded;
   }
   if( odd )
      return;
   PBT_CHECK(c, res == ok, ok ? "rejected" : "accepted", "reading reports %s, but the text is %s %s", res ? "success" : "failure", ok ? "valid" : "invalid:", why.c_str());
   // exactly the listed options have the listed values
   for( auto& r : regs(*app) )
   {
      std::string key = lower(r.name);
      bool set = state.count(key) > 0;
      bool got;
      if( r.o->Type() == OT_Number )
      {
         Number v;
         got = o->GetNumericValue(r.name, v, "");
         double want = set ? state[key].d : r.o->DefaultNumber();
         PBT_CHECK(c, v == want || (v != v && want != want), "value", "%s is %.17g instead of %.17g", r.name.c_str(), v, want);
      }
      else if( r.o->Type() == OT_Integer )
      {
         Index v;
         got = o->GetIntegerValue(r.name, v, "");
         double want = set ? state[key].d : r.o->DefaultInteger();
         PBT_CHECK(c, v == want, "value", "%s is %d instead of %.17g", r.name.c_str(), (int)v, want);
      }
      else
      {
         std::string v;
         got = o->GetStringValue(r.name, v, "");
         std::string want = set ? state[key].s : r.o->DefaultString();
         PBT_CHECK(c, v == want, "value", "%s is '%s' instead of '%s'", r.name.c_str(), v.c_str(), want.c_str());
      }
      PBT_CHECK(c, got == set, "set", "%s is %sset", r.name.c_str(), got ? "" : "not ");
   }
   for( auto& e : state )
      if( e.first.find('.') != std::string::npos && e.second.type == 0 )
         PBT_CHECK(c, stored(*o, e.first) == e.second.d || e.second.d != e.second.d, "value", "%s is %.17g instead of %.17g", e.first.c_str(), stored(*o, e.first), e.second.d);
}
static std::string numtext(pbt::Src& s, double v)
{
   switch( s.below(6) )
   {
      case 0: return fmt("%.17g", v);
      case 1: return fmt("%g", v);
      case 2: { std::string t = fmt("%.9e", v); for( auto& c : t ) if( c == 'e' ) c = s.flip() ? 'd' : 'D'; return t; }
      case 3: return fmt("%+.5E", v);
      case 4: return fmt("%.3f", v);
      default: return fmt("%.0f.", v);
   }
}
// lengths around the sizes of usual buffers
static int length(pbt::Src& s)
{
   return (1 << s.integer(4, 13)) + s.integer(-3, 3);
}
static std::string value_text(Ctx& c, const RegisteredOption& o, double pbad)
{
   pbt::Src& s = c.src;
   bool bad = s.flip(pbad);
   if( o.Type() == OT_Number )
   {
      if( bad )
      {
         static const char* b[] = {"abc", "1e-3x", "1.0.0", "", " ", "nan", "--1", "e5", "1 2", "0x", "1e", "yes", "-1e300", "1e300", ".", "inf", "1,5"};
         return b[s.below(17)];
      }
      double l = o.HasLower() ? o.LowerNumber() : -10, u = o.HasUpper() ? o.UpperNumber() : std::max(l, -1.) + 100;
      double v = s.flip(0.2) ? o.DefaultNumber() : s.flip(0.2) ? s.integer((int)std::max(-1e6, l), (int)std::min(1e6, u)) : l + (u - l) * (s.flip() ? s.unit() : s.logreal(1e-12, 1));
      return numtext(s, v);
   }
   if( o.Type() == OT_Integer )
   {
      if( bad )
      {
         static const char* b[] = {"1.5", "1e3", "99999999999", "4294967297", "-99999999999999999999", "", " ", "x", "12x", "-", "0x10", "3 4", "-2147483649"};
         return b[s.below(13)];
      }
      double l = o.HasLower() ? o.LowerInteger() : -1000, u = o.HasUpper() ? o.UpperInteger() : std::max(l, 0.) + 1000;
      double v = std::floor(l + (std::min(u, l + 1e6) - l) * s.unit());
      return s.flip(0.2) ? fmt("%+d", (int)v) : s.flip(0.1) ? fmt("%05d", (int)v) : fmt("%d", (int)v);
   }
   auto vs = o.GetValidStrings();
   std::string t = vs[s.below(vs.size())].value_;
   if( t == "*" )
   {
      static const char* b[] = {"foo", "a b c", "lib.so", "/x/y z/w.so", "#hash", "tab\tinside", "with\nnewline", ""};
      t = b[s.below(8)];
      if( s.flip(0.1) )
         t += std::string(length(s), 'p') + (s.flip() ? " q" : "q");
   }
   if( s.flip(0.2) )
      for( auto& ch : t )
         ch = (char)toupper(ch);
   if( bad )
      t += s.flip() ? "q" : " ";
   return t;
}
static std::string blank(pbt::Src& s, bool line)
{
   static const char* w[] = {" ", "\t", "  ", " \t ", "\n", "\r\n", "\n\n", "\v", "\f", "\r"};
   static const char* nl[] = {"\n", "\r\n", "\n\n", "\n# comment\n", " # trailing comment \"quoted\n", "\n#\n", "\r\n# x\r\n", "\n   #a b c # d\n\t", " ", "\t"};
   if( s.flip(0.03) )
   {
      std::string b(length(s), s.flip() ? ' ' : '\n');
      return line ? " #" + std::string(length(s), s.flip() ? '-' : 'x') + (s.flip() ? "\n" : "\r\n") + b : b;
   }
   return line ? nl[s.flip(0.6) ? s.below(2) : s.below(10)] : w[s.flip(0.7) ? s.below(3) : s.below(10)];
}
static std::string gen_file(Ctx& c, double pbad, std::map<std::string, Want>* before = nullptr)
{
   pbt::Src& s = c.src;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   auto& r = regs(*app);
   std::string t;
   if( s.flip(0.2) )
      t += "# header\n";
   if( s.flip(0.2) )
      t += blank(s, true);
   int k = s.flip(0.02) ? s.integer(50, 400) : s.integer(0, 8);
   std::vector<size_t> used;
   for( int i = 0; i < k; ++i )
   {
      size_t q = !used.empty() && s.flip(0.25) ? used[s.below(used.size())] : s.below(r.size());
      used.push_back(q);
      if( noisy(r[q].name) )
         continue;
      std::string name = r[q].name;
      if( s.flip(0.05) )
         name = "resto." + name;
      if( s.flip(pbad * 0.3) )
         name += "_x";
      std::string v = value_text(c, *r[q].o, pbad);
      bool quote = v.empty() || v.find_first_of(" \t\n\r#") != std::string::npos || s.flip(0.15);
      if( s.flip(0.05) )
         name = "\"" + name + "\"";
      t += name + blank(s, false) + (quote ? "\"" + v + (s.flip(pbad * 0.1) ? "" : "\"") : v);
      if( i + 1 < k || !s.flip(0.4) )
         t += blank(s, true);
      if( before && s.flip(0.2) )
      {
         Want w;
         w.d = 0;
         if( convert(*r[q].o, value_text(c, *r[q].o, 0), w) )
            (*before)[lower(r[q].name)] = w;
      }
   }
   if( s.flip(pbad * 0.3) )
      t += "\ntol";
   if( s.flip(0.1) )
      t += "#";
   else if( s.flip(0.1) )
      t += "# no newline";
   return t;
}
static std::string vis(const std::string& t)
{
   std::string o;
   for( char c : t )
      o += c == '\n' ? "\\n\n  " : c == '\r' ? "\\r" : c == '\t' ? "\\t" : (c < 32 || c == 127) ? fmt("\\x%02x", (unsigned char)c) : std::string(1, c);
   return o;
}
static void f_file(Ctx& c)
{
   std::map<std::string, Want> before;
   std::string t = gen_file(c, c.src.flip(0.4) ? 0.2 : 0, &before);
   int way = c.src.below(3);
   bool cl = c.src.flip();
   c.desc << "way " << way << ", clobber " << cl << ", " << before.size() << " values set before, text:\n  " << vis(t) << "\n";
   read_compare(c, t, way, cl, before);
}
static void f_bytes(Ctx& c)
{
   pbt::Src& s = c.src;
   std::string t = s.flip(0.8) ? gen_file(c, 0.1) : "";
   int k = s.integer(1, 12);
   static const char* frag[] = {"\"", "#", "\n", " ", "\r", "tol", "1e-3", "max_iter", "\"\"", "\\", "=", "\xff", "\x80", "print_frequency_iter", "10", "hsllib", "\t", "é", "-", "d", "e", "."};
   for( int i = 0; i < k; ++i )
   {
      size_t p = s.below(t.size() + 1);
      switch( s.below(5) )
      {
         case 0: case 1: t.insert(p, frag[s.below(22)]); break;
         case 2: if( p < t.size() ) t.erase(p, 1 + s.below(4)); break;
         case 3: t.insert(p, 1, (char)(1 + s.below(255))); break;
         default: if( p < t.size() ) t[p] = (char)(1 + s.below(255));
      }
   }
   // names with side effects cannot be reached by few edits, but exclude them anyway
   for( const char* n : {"output_file", "print_options_documentation", "option_file_name", "suppress_all"} )
      if( t.find(n) != std::string::npos )
         c.discard();
   if( t.find("infinity") != std::string::npos || t.find("0x") != std::string::npos || t.find("0X") != std::string::npos )
      c.discard();
   c.desc << "text:\n  " << vis(t) << "\n";
   read_compare(c, t, s.below(3), s.flip(), std::map<std::string, Want>());
}
// arbitrary bytes including zeros, unreadable streams: terminates, with a verdict
static void f_raw(Ctx& c)
{
   pbt::Src& s = c.src;
   std::string t;
   int k = s.integer(0, 60);
   for( int i = 0; i < k; ++i )
      t += s.flip(0.3) ? "\"# \n\0\t"[s.below(6)] : (char)s.below(256);
   int kind = s.below(4);
   c.desc << "kind " << kind << " text:\n  " << vis(t) << "\n";
   c.nontrivial = true;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   ApplicationReturnStatus st;
   if( kind == 0 )
   {
      std::string d = pbt::scratch() + fmt("/dir.%d", (int)getpid());
      if( system(("mkdir -p " + d).c_str()) )
         c.discard();
      st = app->Initialize(d);
   }
   else if( kind == 1 )
      st = app->Initialize(pbt::scratch() + "/does-not-exist");
   else if( kind == 2 )
   {
      std::istringstream is(t);
      is.setstate(std::ios::badbit);
      st = app->Initialize(is);
   }
   else
   {
      std::istringstream is(t);
      st = app->Initialize(is);
   }
   PBT_CHECK(c, st == Solve_Succeeded || st == Invalid_Option, "status", "Initialize returns %d", (int)st);
   if( kind < 3 )
      PBT_CHECK(c, st == Solve_Succeeded, "status", "Initialize returns %d", (int)st);
}
// print the user's options and read the printout back
static void f_print(Ctx& c)
{
   pbt::Src& s = c.src;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   auto r = regs(*app);
   std::map<std::string, Want> state;
   int k = s.integer(1, 12);
   for( int i = 0; i < k; ++i )
   {
      auto& q = r[s.below(r.size())];
      if( noisy(q.name) )
         continue;
      Want w;
      w.d = 0;
      std::string v = value_text(c, *q.o, 0);
      if( q.o->Type() == OT_String && has(*q.o, "somethingelse") && s.flip(0.4) )
         v = std::string(s.integer(1, 400), (char)('a' + s.below(26)));
      if( !convert(*q.o, v, w) || v.find('\n') != std::string::npos || v.find('"') != std::string::npos || (!v.empty() && v.back() == ' ') || w.d != w.d )
         continue;
      bool ok = w.type == 0 ? app->Options()->SetNumericValue(q.name, w.d) : w.type == 1 ? app->Options()->SetIntegerValue(q.name, (Index)w.d) : app->Options()->SetStringValue(q.name, v);
      PBT_CHECK(c, ok, "setup", "%s refused", q.name.c_str());
      state[lower(q.name)] = w;
      c.desc << q.name << " " << v << "\n";
   }
   c.nontrivial = state.size() >= 2;
   std::string list, text, line;
   app->Options()->PrintUserOptions(list);
   std::istringstream is(list);
   std::getline(is, line);
   while( std::getline(is, line) )
   {
      size_t p = line.find(" = ");
      PBT_CHECK(c, p != std::string::npos, "print", "line '%s'", line.c_str());
      std::string v = line.substr(p + 3);
      v = v.substr(0, v.find_last_of(' '));
      while( !v.empty() && v.back() == ' ' )
         v.pop_back();
      text += line.substr(0, p) + " \"" + v + "\"\n";
   }
   SmartPtr<IpoptApplication> b = new IpoptApplication(false);
   std::istringstream is2(text);
   bool ok = false;
   try
   {
      ok = b->Options()->ReadFromStream(*b->Jnlst(), is2, true);
   }
   catch( const OPTION_INVALID& e )
   {
      c.fail("rejected", "the printed list cannot be read back: %s", e.Message().c_str());
   }
   PBT_CHECK(c, ok, "rejected", "the printed list cannot be read back");
   for( auto& e : state )
   {
      if( e.second.type == 0 )
      {
         Number v;
         b->Options()->GetNumericValue(e.first, v, "");
         PBT_CHECK(c, v == e.second.d, "value", "%s becomes %.17g instead of %.17g", e.first.c_str(), v, e.second.d);
      }
      else if( e.second.type == 1 )
      {
         Index v;
         b->Options()->GetIntegerValue(e.first, v, "");
         PBT_CHECK(c, v == e.second.d, "value", "%s becomes %d instead of %g", e.first.c_str(), (int)v, e.second.d);
      }
      else
      {
         std::string v;
         b->Options()->GetStringValue(e.first, v, "");
         PBT_CHECK(c, v == e.second.s, "value", "%s becomes '%s' instead of '%s'", e.first.c_str(), v.c_str(), e.second.s.c_str());
      }
   }
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P31", "at least one setting is read (raw: always)",
      {{"file", f_file, 36000, 1000000, 10, true}, {"bytes", f_bytes, 20000, 1000000, 10, true}, {"raw", f_raw, 2000, 100000, 10, true}, {"print", f_print, 9000, 200000}}
   };
   return pbt::run_main(argc, argv, k);
}
