// P34: reference counting frees each object exactly once, when unused.
#include "pbt.hpp"
#include "IpSmartPtr.hpp"
#include "IpReferenced.hpp"
#include <map>
#include <set>
#include <algorithm>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

struct Obj;
static std::map<const Obj*, int> alive;     // object -> id
static std::vector<int> destroyed;          // per id: number of destructions
struct Obj: public ReferencedObject
{
   int id;
   SmartPtr<Obj> next;              // owned objects
   SmartPtr<const Obj> cnext;
   Obj() : id((int)destroyed.size())
   {
      destroyed.push_back(0);
      alive[this] = id;
   }
   virtual ~Obj()
   {
      destroyed[id]++;
      alive.erase(this);
   }
   virtual int kind() const { return 0; }
};
struct Mixin { virtual ~Mixin() { } int pad = 7; };
struct Der: public Mixin, public Obj { int kind() const { return 1; } };   // base is not at offset zero
struct Der2: public Der { int kind() const { return 2; } };

static void f_history(Ctx& c)
{
   pbt::Src& s = c.src;
   alive.clear(), destroyed.clear();
   const int N = 4;
   SmartPtr<Obj> b[N];
   SmartPtr<const Obj> cb[N];
   SmartPtr<Der> d[N];
   std::vector<SmartPtr<Obj> >* vec = new std::vector<SmartPtr<Obj> >();
   // model: raw pointers of every holder; the owners of next/cnext are kept in the objects themselves
   Obj* mb[N] = {};
   const Obj* mc[N] = {};
   Der* md[N] = {};
   std::vector<Obj*> mv;
   std::map<int, int> mnext, mcnext;   // id -> id
   int nops = s.integer(1, 60), created = 0, shared = 0;
   std::map<int, Obj*> byid;
   auto idof = [&](const Obj * o) { return o ? o->id : -1; };
   for( int op = 0; op < nops; ++op )
   {
      int i = s.below(N), j = s.below(N);
      switch( s.below(18) )
      {
         case 0:
         {
            Obj* o = new Obj();
            byid[o->id] = o;
            ++created;
            c.desc << fmt("b%d = new obj %d\n", i, o->id);
            b[i] = o;
            mb[i] = o;
            break;
         }
         case 1:
         {
            Der* o = s.flip() ? new Der() : new Der2();
            byid[o->id] = o;
            ++created;
            c.desc << fmt("d%d = new derived %d\n", i, o->id);
            if( s.flip() )
               d[i] = o;
            else
               d[i] = SmartPtr<Der>(o);
            md[i] = o;
            break;
         }
         case 2: c.desc << fmt("b%d = b%d\n", i, j); b[i] = b[j]; mb[i] = mb[j]; break;
         case 3: c.desc << fmt("b%d = d%d\n", i, j); b[i] = d[j]; mb[i] = md[j]; break;
         case 4: c.desc << fmt("c%d = b%d\n", i, j); if( s.flip() ) cb[i] = b[j]; else cb[i] = ConstPtr(b[j]); mc[i] = mb[j]; break;
         case 5: c.desc << fmt("c%d = d%d\n", i, j); cb[i] = d[j]; mc[i] = md[j]; break;
         case 6: c.desc << fmt("d%d = d%d\n", i, j); d[i] = d[j]; md[i] = md[j]; break;
         case 7: c.desc << fmt("b%d = raw of b%d\n", i, j); b[i] = GetRawPtr(b[j]); mb[i] = mb[j]; break;
         case 8: c.desc << fmt("b%d = NULL\n", i); b[i] = NULL; mb[i] = nullptr; break;
         case 9: c.desc << fmt("c%d = NULL, d%d = NULL\n", i, j); cb[i] = NULL; d[j] = NULL; mc[i] = nullptr; md[j] = nullptr; break;
         case 10:
            // link: owner must not become reachable from itself
            if( mb[i] && mb[j] )
            {
               int x = idof(mb[j]);
               bool cyc = false;
               std::vector<int> st(1, x);
               while( !st.empty() && !cyc )
               {
                  int y = st.back();
                  st.pop_back();
                  cyc = y == mb[i]->id;
                  if( mnext.count(y) ) st.push_back(mnext[y]);
                  if( mcnext.count(y) ) st.push_back(mcnext[y]);
               }
               if( cyc )
                  break;
               bool k = s.flip();
               c.desc << fmt("b%d->%s = b%d\n", i, k ? "next" : "cnext", j);
               if( k )
                  b[i]->next = b[j], mnext[mb[i]->id] = x;
               else
                  (*b[i]).cnext = b[j], mcnext[mb[i]->id] = x;
            }
            break;
         case 11:
            // take over what is only owned by the object that goes away
            if( mb[i] && mnext.count(mb[i]->id) )
            {
               c.desc << fmt("b%d = b%d->next\n", i, i);
               int x = mnext[mb[i]->id];
               b[i] = b[i]->next;
               mb[i] = byid[x];
            }
            break;
         case 12:
            if( mc[i] && mcnext.count(mc[i]->id) )
            {
               c.desc << fmt("c%d = c%d->cnext\n", i, i);
               int x = mcnext[mc[i]->id];
               cb[i] = cb[i]->cnext;
               mc[i] = byid[x];
            }
            break;
         case 13: c.desc << fmt("push b%d\n", i); vec->push_back(b[i]); mv.push_back(mb[i]); break;
         case 14:
            if( !mv.empty() )
            {
               int k = s.below(mv.size());
               c.desc << fmt("erase %d\n", k);
               if( s.flip() )
               {
                  vec->erase(vec->begin() + k);
                  mv.erase(mv.begin() + k);
               }
               else
               {
                  delete vec;
                  vec = new std::vector<SmartPtr<Obj> >(2, b[i]);
                  mv.assign(2, mb[i]);
               }
            }
            break;
         case 15:
         {
            c.desc << fmt("temporaries of b%d\n", i);
            SmartPtr<Obj> t(b[i]);
            SmartPtr<const Obj> t2(t), t3 = ConstPtr(d[j]);
            SmartPtr<Obj> t4(d[j]);
            PBT_CHECK(c, t == b[i] && t4 == d[j] && t2 == b[i], "compare", "operation %d: copy differs from original", op);
            b[i] = t;
            break;
         }
         case 16:
         {
            c.desc << fmt("swap b%d b%d\n", i, j);
            std::swap(b[i], b[j]);
            std::swap(mb[i], mb[j]);
            break;
         }
         default:
            c.desc << fmt("self assignment b%d c%d d%d\n", i, i, i);
            b[i] = *&b[i];
            cb[i] = GetRawPtr(cb[i]);
            d[i] = GetRawPtr(d[i]);
      }
      // what must be alive
      std::map<int, int> refs;
      for( int k = 0; k < N; ++k )
      {
         if( mb[k] ) refs[0];
      }
      refs.clear();
      // reachability with reference counts, following owners that are alive only
      std::vector<const Obj*> roots;
      for( int k = 0; k < N; ++k )
      {
         roots.push_back(mb[k]);
         roots.push_back(mc[k]);
         roots.push_back(md[k]);
      }
      for( Obj* o : mv )
         roots.push_back(o);
      std::set<int> reach;
      std::vector<int> st;
      for( auto* o : roots )
         if( o )
         {
            PBT_CHECK(c, alive.count(o), "freed", "operation %d: an object was freed while a pointer refers to it", op);
            refs[o->id]++;
            if( reach.insert(o->id).second )
               st.push_back(o->id);
         }
      while( !st.empty() )
      {
         int y = st.back();
         st.pop_back();
         for( auto* mm : {&mnext, &mcnext} )
            if( mm->count(y) )
            {
               int x = (*mm)[y];
               refs[x]++;
               if( reach.insert(x).second )
                  st.push_back(x);
            }
      }
      PBT_CHECK(c, alive.size() == reach.size(), "alive", "operation %d: %d objects are alive, %d are referred to", op, (int)alive.size(), (int)reach.size());
      for( int x : reach )
      {
         PBT_CHECK(c, destroyed[x] == 0, "freed", "operation %d: object %d was freed while a pointer refers to it", op, x);
         PBT_CHECK(c, byid[x]->ReferenceCount() == refs[x], "count", "operation %d: reference count %d instead of %d", op, (int)byid[x]->ReferenceCount(), refs[x]);
         shared += refs[x] > 1;
      }
      for( size_t x = 0; x < destroyed.size(); ++x )
      {
         PBT_CHECK(c, destroyed[x] == (reach.count(x) ? 0 : 1), "destroyed", "operation %d: object %d destroyed %d times", op, (int)x, destroyed[x]);
         if( !reach.count(x) )
            mnext.erase(x), mcnext.erase(x);
      }
      // comparisons behave as pointer comparisons
      PBT_CHECK(c, GetRawPtr(b[i]) == mb[i] && GetRawPtr(cb[j]) == mc[j] && GetRawPtr(d[i]) == md[i], "raw", "operation %d: smart pointer refers to another object", op);
      PBT_CHECK(c, (b[i] == b[j]) == (mb[i] == mb[j]) && (b[i] != b[j]) == (mb[i] != mb[j]), "compare", "operation %d: comparison of smart pointers", op);
      PBT_CHECK(c, (b[i] == cb[j]) == (mb[i] == mc[j]) && (b[i] != cb[j]) == (mb[i] != mc[j]), "compare", "operation %d: comparison with pointer to const", op);
      PBT_CHECK(c, (b[i] == d[j]) == (mb[i] == static_cast<Obj*>(md[j])) && (d[j] == mb[i]) == (b[i] == d[j]) && (mb[i] != d[j]) == !(b[i] == d[j]), "compare", "operation %d: comparison with pointer to derived", op);
      PBT_CHECK(c, (b[i] == md[j]) == (mb[i] == static_cast<Obj*>(md[j])) && (mb[i] == b[j]) == (mb[i] == mb[j]) && (mb[i] != b[j]) == (mb[i] != mb[j]) && (b[i] != md[j]) == !(b[i] == md[j]), "compare", "operation %d: comparison with raw pointers", op);
      PBT_CHECK(c, (b[i] < b[j]) == (mb[i] < mb[j]), "compare", "operation %d: order of smart pointers", op);
      PBT_CHECK(c, IsValid(b[i]) == (mb[i] != nullptr) && IsNull(d[j]) == (md[j] == nullptr) && IsValid(cb[i]) == !IsNull(cb[i]), "null", "operation %d: IsValid/IsNull", op);
      if( md[i] )
         PBT_CHECK(c, d[i]->kind() >= 1 && (*d[i]).pad == 7, "access", "operation %d: access through pointer", op);
   }
   delete vec;
   for( int k = 0; k < N; ++k )
   {
      b[k] = NULL;
      cb[k] = SmartPtr<const Obj>();
      d[k] = NULL;
   }
   PBT_CHECK(c, alive.empty(), "leak", "%d objects not freed", (int)alive.size());
   for( size_t x = 0; x < destroyed.size(); ++x )
      PBT_CHECK(c, destroyed[x] == 1, "destroyed", "object %d destroyed %d times", (int)x, destroyed[x]);
   c.nontrivial = created >= 2 && shared > 0;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P34", "at least two objects, one of them with two references at some time",
      {{"history", f_history, 300000, 6000000}}
   };
   return pbt::run_main(argc, argv, k);
}
