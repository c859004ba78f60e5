// P33: messages reach exactly the journals whose level asks for them.
#include "pbt.hpp"
#include "IpJournalist.hpp"
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

class MemJournal: public Journal
{
public:
   std::string* out;
   MemJournal(const std::string& n, EJournalLevel l, std::string* o) : Journal(n, l), out(o) { }
protected:
   void PrintImpl(EJournalCategory, EJournalLevel, const char* s) { *out += s; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap)
   {
      va_list c;
      va_copy(c, ap);
      int n = vsnprintf(nullptr, 0, f, c);
      va_end(c);
      std::vector<char> b(n + 1);
      vsnprintf(b.data(), b.size(), f, ap);
      *out += b.data();
   }
   void FlushBufferImpl() { }
};
struct M
{
   std::string name;
   int kind;                   // 0 stream, 1 file, 2 own class
   int lev[J_LAST_CATEGORY];
   bool userok = true;         // levels of user categories known
   std::string want, file;
   std::string mem;            // own class
   std::ostringstream os;
   SmartPtr<Journal> j;
   bool alive = true;
};
static void viaV(const Journalist& j, EJournalLevel l, EJournalCategory k, int indent, const char* f, ...)
{
   va_list ap;
   va_start(ap, f);
   if( indent < 0 )
      j.VPrintf(l, k, f, ap);
   else
      j.VPrintfIndented(l, k, indent, f, ap);
   va_end(ap);
}
static std::string longtext(pbt::Src& s)
{
   int n = s.flip(0.8) ? s.integer(0, 60) : s.flip() ? s.integer(30000, 34000) : s.integer(1000, 200000);
   std::string r(n, 'x');
   int st = s.integer(1, 50);
   for( int i = 0; i < n; ++i )
      r[i] = "abcdefg hij%\n"[(i * st + i / 7) % 13];
   return r;
}
static std::string words(pbt::Src& s)
{
   std::string r;
   int k = s.integer(0, 30);
   for( int i = 0; i < k; ++i )
   {
      if( i )
         r += ' ';
      int L = s.flip(0.85) ? s.integer(1, 9) : s.integer(10, 90);
      for( int q = 0; q < L; ++q )
         r += (char)('a' + (i + q) % 26);
   }
   return r;
}
/** text broken over lines: unbroken it must be the text again, no line too long, continuation lines indented */
static std::string check_broken(const std::string& got, const std::string& line, int indent, int maxl)
{
   std::string un;
   size_t p = 0;
   bool first = true;
   while( p <= got.size() )
   {
      size_t e = got.find('\n', p);
      bool last = e == std::string::npos;
      std::string l = got.substr(p, last ? e : e - p);
      if( !first )
      {
         if( (int)l.size() < indent && !(last && l.empty()) )
            return "continuation line shorter than indentation";
         if( l.size() && l.substr(0, indent) != std::string(indent, ' ') )
            return "continuation line not indented: '" + l + "'";
         l = l.size() ? l.substr(indent) : l;
      }
      if( (int)l.size() > maxl )
         return "line too long: '" + l + "'";
      un += (un.empty() ? "" : "\n") + l;
      first = false;
      if( last )
         break;
      p = e + 1;
   }
   // compare, where a newline may stand for a space or, after a hyphen, for nothing
   size_t i = 0, k = 0;
   while( i < un.size() )
   {
      if( un[i] == '\n' )
      {
         if( k < line.size() && line[k] == ' ' )
            ++k;
         else if( !(k >= line.size()) )
            return "line broken inside of a word";
         ++i;
      }
      else if( un[i] == '-' && i + 1 < un.size() && un[i + 1] == '\n' )
         i += 2;
      else
      {
         if( k >= line.size() || un[i] != line[k] )
            return "text differs: '" + un + "'";
         ++i, ++k;
      }
   }
   return k == line.size() || line.find_first_not_of(' ', k) == std::string::npos ? "" : "text lost: '" + un + "'";
}
static void f_journals(Ctx& c)
{
   pbt::Src& s = c.src;
   SmartPtr<Journalist> jn = new Journalist();
   std::vector<M*> js;      // all, in order; removed ones stay with alive=false
   std::map<std::string, std::string> files;
   static int counter = 0;
   std::string dir = pbt::scratch() + fmt("/j%d_%d", (int)getpid(), counter++);
   static const char* names[] = {"console", "file", "debug", "x", ""};
   static const EJournalCategory cats[] = {J_DBG, J_STATISTICS, J_MAIN, J_INITIALIZATION, J_NLP, J_LINE_SEARCH, J_DOCUMENTATION, J_TIMING_STATISTICS, J_USER_APPLICATION, J_USER1, J_USER17};
   int nops = s.integer(1, 40), sent = 0, heard = 0, silent = 0;
   for( int op = 0; op < nops; ++op )
   {
      int what = s.below(12);
      if( op == 0 )
         what = 0;
      auto find = [&](const std::string & n)->M*
      {
         for( M* m : js )
            if( m->alive && m->name == n )
               return m;
         return nullptr;
      };
      if( what <= 1 )
      {
         std::string n = names[s.below(5)];
         int lev = s.integer(-1, J_ALL), kind = s.below(3);
         bool dup = find(n) != nullptr;
         if( dup && kind == 1 )
            kind = 0;     // the file would be truncated even though the journal is refused
         M* m = new M;
         m->name = n, m->kind = kind;
         for( int& l : m->lev )
            l = lev;
         bool ok;
         bool app = s.flip();
         if( kind == 1 )
         {
            m->file = dir + fmt("_%d", (int)s.below(4));
            bool inuse = false;
            for( M* q : js )
               inuse = inuse || (q->alive && q->file == m->file);
            if( inuse )
            {
               delete m;
               continue;
            }
            std::string before;
            if( !files.count(m->file) && s.flip() )
            {
               std::ofstream f(m->file);
               f << "old text\n";
               files[m->file] = "old text\n";
            }
            if( app )
               m->want = files[m->file];
            if( s.flip(0.1) )
            {
               SmartPtr<Journal> no = jn->AddFileJournal(n, pbt::scratch() + "/no/such/dir/f", (EJournalLevel)lev, app);
               PBT_CHECK(c, IsNull(no) && IsNull(jn->GetJournal(n)), "badfile", "journal for a file that cannot be created");
            }
            m->j = jn->AddFileJournal(n, m->file, (EJournalLevel)lev, app);
            ok = IsValid(m->j);
            files[m->file];
         }
         else
         {
            if( kind == 0 )
            {
               SmartPtr<StreamJournal> sj = new StreamJournal(n, (EJournalLevel)lev);
               sj->SetOutputStream(&m->os);
               m->j = GetRawPtr(sj);
            }
            else
               m->j = new MemJournal(n, (EJournalLevel)lev, &m->mem);
            ok = jn->AddJournal(m->j);
         }
         c.desc << fmt("add '%s' kind %d level %d append %d\n", n.c_str(), kind, lev, app);
         PBT_CHECK(c, ok == !dup, "add", "operation %d: adding journal '%s' returns %d", op, n.c_str(), ok);
         if( ok )
            js.push_back(m);
         else
            delete m;
         M* g = find(n);
         PBT_CHECK(c, g && GetRawPtr(jn->GetJournal(n)) == GetRawPtr(g->j), "get", "operation %d: GetJournal('%s') gives another journal", op, n.c_str());
      }
      else if( what <= 3 )
      {
         M* m = find(names[s.below(5)]);
         if( !m )
            continue;
         int lev = s.integer(-1, J_ALL);
         EJournalCategory k = cats[s.below(11)];
         if( s.flip(0.7) )
         {
            c.desc << fmt("level of '%s' category %d := %d\n", m->name.c_str(), (int)k, lev);
            m->j->SetPrintLevel(k, (EJournalLevel)lev);
            m->lev[k] = lev;
         }
         else
         {
            c.desc << fmt("all levels of '%s' := %d\n", m->name.c_str(), lev);
            m->j->SetAllPrintLevels((EJournalLevel)lev);
            for( int q = 0; q < J_USER_APPLICATION; ++q )
               m->lev[q] = lev;
            m->userok = false;  // whether this covers the user's categories is not specified clearly
         }
      }
      else if( what == 4 && s.flip(0.15) )
      {
         c.desc << "delete all\n";
         jn->DeleteAllJournals();
         for( M* m : js )
            if( m->alive )
            {
               m->alive = false;
               m->j = NULL;   // closes files
               if( m->kind == 1 )
                  files[m->file] = m->want;
            }
      }
      else
      {
         EJournalCategory k = cats[s.below(11)];
         EJournalLevel l = (EJournalLevel)s.integer(-1, J_ALL);
         bool skip = false;
         for( M* m : js )
            skip = skip || (m->alive && !m->userok && k >= J_USER_APPLICATION);
         if( skip )
            k = J_MAIN;
         std::string exp;
         int how = s.below(6), indent = -1;
         std::string t = longtext(s);
         int iv = s.integer(-1000, 1000);
         double dv = s.nice(-10, 10);
         std::vector<size_t> before;
         bool any = false;
         for( M* m : js )
            if( m->alive )
               any = any || m->lev[k] >= (int)l;
         PBT_CHECK(c, jn->ProduceOutput(l, k) == any, "produce", "operation %d: ProduceOutput returns %d", op, !any);
         c.desc << fmt("print level %d category %d way %d length %d\n", (int)l, (int)k, how, (int)t.size());
         auto cmp = [&](const std::string & e)
         {
            for( M* m : js )
               if( m->alive )
               {
                  if( m->lev[k] >= (int)l )
                     m->want += e, ++heard;
                  else
                     ++silent;
               }
         };
         ++sent;
         switch( how )
         {
            case 0:
               jn->Printf(l, k, "%s", t.c_str());
               cmp(t);
               break;
            case 1:
               jn->Printf(l, k, "%5d|%-8.3e|%s|%c%%\n", iv, dv, t.c_str(), 'q');
               cmp(fmt("%5d|%-8.3e|", iv, dv) + t + "|q%\n");
               break;
            case 2:
               indent = s.integer(0, 5);
               jn->PrintfIndented(l, k, indent, "%d %s %g\n", iv, t.c_str(), dv);
               cmp(std::string(2 * indent, ' ') + fmt("%d ", iv) + t + fmt(" %g\n", dv));
               break;
            case 3:
               viaV(*jn, l, k, -1, "%d %s %g\n", iv, t.c_str(), dv);
               cmp(fmt("%d ", iv) + t + fmt(" %g\n", dv));
               break;
            case 4:
               indent = s.integer(0, 3);
               viaV(*jn, l, k, indent, "%d %s %g\n", iv, t.c_str(), dv);
               cmp(std::string(2 * indent, ' ') + fmt("%d ", iv) + t + fmt(" %g\n", dv));
               break;
            default:
            {
               // find out what is written, then judge the text
               std::string w = words(s), got;
               int in = s.integer(0, 20), mx = s.integer(2, 80);
               SmartPtr<Journalist> probe = new Journalist();
               probe->AddJournal(new MemJournal("p", J_ALL, &got));
               probe->PrintStringOverLines(l, k, in, mx, w);
               std::string e = check_broken(got, w, in, mx);
               PBT_CHECK(c, e.empty(), "over-lines", "text '%s' (indent %d, width %d): %s", w.c_str(), in, mx, e.c_str());
               jn->PrintStringOverLines(l, k, in, mx, w);
               cmp(got);
            }
         }
         if( s.flip(0.05) )
            jn->FlushBuffer();
      }
   }
   jn->FlushBuffer();
   for( M* m : js )
   {
      std::string got = m->kind == 0 ? m->os.str() : m->mem;
      if( m->kind == 1 )
      {
         if( !m->alive )
            continue;
         std::ifstream f(m->file);
         std::stringstream ss;
         ss << f.rdbuf();
         got = ss.str();
      }
      if( got != m->want )
      {
         size_t i = 0;
         while( i < got.size() && i < m->want.size() && got[i] == m->want[i] )
            ++i;
         c.fail("text", "journal '%s' (kind %d) has %d instead of %d characters, first difference at %d", m->name.c_str(), m->kind, (int)got.size(), (int)m->want.size(), (int)i);
      }
   }
   // files of removed journals
   for( auto& f : files )
   {
      bool open = false;
      for( M* m : js )
         open = open || (m->alive && m->file == f.first);
      if( open )
         continue;
      std::ifstream in(f.first);
      std::stringstream ss;
      ss << in.rdbuf();
      PBT_CHECK(c, ss.str() == f.second, "file", "file of a removed journal has %d instead of %d characters", (int)ss.str().size(), (int)f.second.size());
   }
   for( M* m : js )
      delete m;
   jn = NULL;
   for( auto& f : files )
      unlink(f.first.c_str());
   c.nontrivial = heard > 0 && silent > 0;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P33", "history with a message that some journal must show and another must not",
      {{"journals", f_journals, 30000, 3000000}}
   };
   return pbt::run_main(argc, argv, k);
}
