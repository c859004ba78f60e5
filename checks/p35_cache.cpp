// P35: cached results are never stale, observers always hear of changes.
#include "pbt.hpp"
#include "IpCachedResults.hpp"
#include "IpTaggedObject.hpp"
#include "IpObserver.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpSmartPtr.hpp"
#include <map>
#include <set>
using namespace Ipopt;
using pbt::Ctx;
using pbt::fmt;

class Tagged: public TaggedObject { public: void change() { ObjectChanged(); } };

struct Ent { int value; std::vector<TaggedObject::Tag> tags; std::vector<double> sc; std::vector<int> dep; };
// ---- model based test of the cache ----
static void f_cache(Ctx& c)
{
   pbt::Src& s = c.src;
   const int NO = 4, NC = 2;
   Tagged* o[NO];
   std::set<TaggedObject::Tag> used;
   for( int i = 0; i < NO; ++i )
   {
      o[i] = new Tagged;
      used.insert(o[i]->GetTag());
   }
   PBT_CHECK(c, used.size() == NO, "tag", "two objects with the same tag");
   int maxs[NC];
   CachedResults<int>* ca[NC];
   std::vector<Ent> m[NC];   // newest first
   for( int i = 0; i < NC; ++i )
   {
      maxs[i] = s.integer(-1, 4);
      ca[i] = new CachedResults<int>(maxs[i]);
      c.desc << fmt("cache %d size %d\n", i, maxs[i]);
   }
   int nops = s.integer(1, 60), next = 1, hits = 0, misses = 0;
   static const double scal[] = {0., 1., -0., 1e-300, 2.};
   auto drop = [&](int obj)
   {
      // results that depend on the object are gone
      for( auto& v : m )
         for( size_t i = 0; i < v.size(); )
         {
            bool d = false;
            for( int k : v[i].dep )
               d = d || k == obj;
            if( d )
               v.erase(v.begin() + i);
            else
               ++i;
         }
   };
   for( int op = 0; op < nops; ++op )
   {
      int k = s.below(NC), what = s.below(10);
      if( what <= 6 )
      {
         int nd = s.integer(0, 3), ns = s.flip(0.5) ? 0 : s.integer(0, 2);
         std::vector<int> dep(nd);
         std::vector<const TaggedObject*> d(nd);
         std::vector<double> sc(ns);
         Ent e;
         c.desc << fmt("%s cache %d:", what <= 2 ? "add" : what <= 5 ? "get" : "invalidate", k);
         for( int i = 0; i < nd; ++i )
         {
            dep[i] = s.integer(-1, NO - 1);
            if( s.flip(0.6) )
               dep[i] = std::min(dep[i], 1);
            d[i] = dep[i] < 0 ? nullptr : o[dep[i]];
            e.tags.push_back(dep[i] < 0 ? 0 : o[dep[i]]->GetTag());
            c.desc << " o" << dep[i];
         }
         for( auto& x : sc )
         {
            x = scal[s.below(5)];
            c.desc << " " << x;
         }
         c.desc << "\n";
         e.dep = dep, e.sc = sc;
         int found = -1, nfound = 0;
         for( size_t i = 0; i < m[k].size(); ++i )
            if( m[k][i].tags == e.tags && m[k][i].sc == sc )
            {
               if( found < 0 )
                  found = (int)i;
               ++nfound;
            }
         if( what <= 2 )
         {
            if( nfound && s.flip(0.7) )
               continue;
            e.value = next++;
            if( ns == 0 && nd >= 1 && s.flip() )
            {
               if( nd == 1 ) ca[k]->AddCachedResult1Dep(e.value, d[0]);
               else if( nd == 2 ) ca[k]->AddCachedResult2Dep(e.value, d[0], d[1]);
               else ca[k]->AddCachedResult3Dep(e.value, d[0], d[1], d[2]);
            }
            else if( ns == 0 && s.flip() )
               ca[k]->AddCachedResult(e.value, d);
            else
               ca[k]->AddCachedResult(e.value, d, sc);
            m[k].insert(m[k].begin(), e);
            if( maxs[k] >= 0 && (int)m[k].size() > maxs[k] )
               m[k].pop_back();
         }
         else if( what <= 5 )
         {
            int got = -77;
            bool r;
            if( ns == 0 && nd >= 1 && s.flip() )
               r = nd == 1 ? ca[k]->GetCachedResult1Dep(got, d[0]) : nd == 2 ? ca[k]->GetCachedResult2Dep(got, d[0], d[1]) : ca[k]->GetCachedResult3Dep(got, d[0], d[1], d[2]);
            else if( ns == 0 && s.flip() )
               r = ca[k]->GetCachedResult(got, d);
            else
               r = ca[k]->GetCachedResult(got, d, sc);
            PBT_CHECK(c, !r || found >= 0, "stale", "operation %d: result %d returned, none is valid", op, got);
            PBT_CHECK(c, r == (found >= 0), "lost", "operation %d: result not found", op);
            PBT_CHECK(c, !r || got == m[k][found].value, "wrong", "operation %d: result %d instead of %d", op, got, m[k][found].value);
            (r ? hits : misses)++;
         }
         else
         {
            if( nfound > 1 )
               continue;    // not specified which of several equal ones
            bool r = ca[k]->InvalidateResult(d, sc);
            PBT_CHECK(c, r == (found >= 0), "invalidate", "operation %d: InvalidateResult returns %d", op, r);
            if( found >= 0 )
               m[k].erase(m[k].begin() + found);
         }
      }
      else if( what == 7 )
      {
         int i = s.below(NO);
         c.desc << "change o" << i << "\n";
         TaggedObject::Tag old = o[i]->GetTag();
         o[i]->change();
         PBT_CHECK(c, o[i]->HasChanged(old) && !o[i]->HasChanged(o[i]->GetTag()), "tag", "operation %d: HasChanged", op);
         PBT_CHECK(c, used.insert(o[i]->GetTag()).second && o[i]->GetTag() != 0, "tag", "operation %d: changed object has a tag that was used before", op);
         drop(i);
      }
      else if( what == 8 )
      {
         int i = s.below(NO);
         c.desc << "destroy and recreate o" << i << "\n";
         drop(i);
         delete o[i];
         o[i] = new Tagged;
         PBT_CHECK(c, used.insert(o[i]->GetTag()).second, "tag", "operation %d: new object has a tag that was used before", op);
      }
      else
      {
         c.desc << "clear cache " << k << "\n";
         if( s.flip(0.7) )
            ca[k]->Clear();
         else if( s.flip() )
         {
            maxs[k] = s.integer(-1, 4);
            ca[k]->Clear(maxs[k]);
         }
         else
         {
            delete ca[k];
            ca[k] = new CachedResults<int>(maxs[k]);
         }
         m[k].clear();
      }
   }
   // destroy everything in any order
   std::vector<int> p = s.perm(NO + NC);
   for( int i : p )
   {
      if( i < NO )
         delete o[i];
      else
         delete ca[i - NO];
   }
   c.nontrivial = hits > 0 && misses > 0;
}
// ---- observers ----
class Subj: public Subject { public: int id; void fire(Observer::NotifyType t) { Notify(t); } };
class Obs: public Observer
{
public:
   std::map<const Subject*, int> changed, destroyed;
   void attach(const Subject* s) { RequestAttach(NT_All, s); }
   void detach(const Subject* s) { RequestDetach(NT_All, s); }
protected:
   void ReceiveNotification(NotifyType t, const Subject* s)
   {
      if( t == NT_Changed ) changed[s]++;
      if( t == NT_BeingDestroyed ) destroyed[s]++;
   }
};
static void f_observers(Ctx& c)
{
   pbt::Src& s = c.src;
   const int NS = 4, NO = 4;
   Subj* su[NS];
   Obs* ob[NO];
   bool att[NO][NS] = {};
   for( auto& x : su ) x = new Subj;
   for( auto& x : ob ) x = new Obs;
   int nops = s.integer(1, 50), fires = 0;
   for( int op = 0; op < nops; ++op )
   {
      int i = s.below(NO), j = s.below(NS);
      switch( s.below(6) )
      {
         case 0:
         case 1:
            if( !att[i][j] )
            {
               c.desc << fmt("attach %d to %d\n", i, j);
               ob[i]->attach(su[j]);
               att[i][j] = true;
            }
            break;
         case 2:
            c.desc << fmt("detach %d from %d\n", i, j);
            ob[i]->detach(su[j]);    // also if not attached
            att[i][j] = false;
            break;
         case 3:
         {
            c.desc << fmt("change %d\n", j);
            int before[NO];
            for( int k = 0; k < NO; ++k )
               before[k] = ob[k]->changed[su[j]];
            su[j]->fire(Observer::NT_Changed);
            for( int k = 0; k < NO; ++k )
            {
               PBT_CHECK(c, ob[k]->changed[su[j]] == before[k] + att[k][j], "notify", "operation %d: observer %d heard of the change %d times, attached %d", op, k, ob[k]->changed[su[j]] - before[k], att[k][j]);
               fires += att[k][j];
            }
            break;
         }
         case 4:
         {
            c.desc << fmt("destroy subject %d\n", j);
            const Subject* p = su[j];
            int before[NO];
            for( int k = 0; k < NO; ++k )
               before[k] = ob[k]->destroyed[p];
            delete su[j];
            for( int k = 0; k < NO; ++k )
            {
               PBT_CHECK(c, ob[k]->destroyed[p] == before[k] + att[k][j], "destroyed", "operation %d: observer %d heard %d times that the subject is destroyed, attached %d", op, k, ob[k]->destroyed[p] - before[k], att[k][j]);
               att[k][j] = false;
               ob[k]->destroyed.erase(p), ob[k]->changed.erase(p);
            }
            su[j] = new Subj;
            break;
         }
         default:
            c.desc << fmt("destroy observer %d\n", i);
            delete ob[i];
            ob[i] = new Obs;
            for( int k = 0; k < NS; ++k )
               att[i][k] = false;
      }
   }
   std::vector<int> p = s.perm(NS + NO);
   for( int i : p )
   {
      if( i < NS ) delete su[i];
      else delete ob[i - NS];
   }
   c.nontrivial = fires >= 2;
}
// ---- every way of changing a vector is noticed ----
static void f_vectors(Ctx& c)
{
   pbt::Src& s = c.src;
   int n = s.integer(1, 4), nc = s.integer(1, 3);
   SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(n);
   SmartPtr<CompoundVectorSpace> cs = new CompoundVectorSpace(nc, n * nc);
   for( int i = 0; i < nc; ++i )
      cs->SetCompSpace(i, *sp);
   bool comp = s.flip();
   auto make = [&]() -> SmartPtr<Vector>
   {
      SmartPtr<Vector> v;
      if( comp )
         v = cs->MakeNew();
      else
         v = sp->MakeNew();
      v->Set(1.5);
      return v;
   };
   SmartPtr<Vector> x = make(), y = make(), z = make();
   y->Set(2.5);
   z->Set(-0.5);
   CachedResults<int> cache(3);
   std::set<TaggedObject::Tag> used;
   used.insert(x->GetTag());
   int nops = s.integer(1, 20);
   for( int op = 0; op < nops; ++op )
   {
      const TaggedObject* t = GetRawPtr(x);
      cache.AddCachedResult1Dep(op, t);
      double nrm[6] = {x->Nrm2(), x->Asum(), x->Amax(), x->Max(), x->Min(), x->Sum()};
      int what = s.below(26);
      double a = s.nice(-2, 2), b = s.nice(-2, 2);
      bool mut = true;
      TaggedObject::Tag old = x->GetTag();
      switch( what )
      {
         case 0: x->Set(a); break;
         case 1: x->Scal(2 + std::fabs(a)); break;
         case 2: x->Axpy(1 + std::fabs(a), *y); break;
         case 3: x->Copy(*y); break;
         case 4: x->AddTwoVectors(a, *y, b, *z, 1.); break;
         case 5: x->AddOneVector(a, *y, b); break;
         case 6: x->AddVectorQuotient(a, *y, *z, b); break;
         case 7: x->ElementWiseDivide(*y); break;
         case 8: x->ElementWiseMultiply(*y); break;
         case 9: x->ElementWiseSelect(*y); break;
         case 10: x->ElementWiseMax(*y); break;
         case 11: x->ElementWiseMin(*y); break;
         case 12: x->ElementWiseReciprocal(); break;
         case 13: x->ElementWiseAbs(); break;
         case 14: x->ElementWiseSgn(); x->Scal(1.25); break;
         case 15: x->ElementWiseSqrt(); x->Set(1.); break;
         case 16: x->AddScalar(a); break;
         case 17:
            if( comp )
            {
               SmartPtr<Vector> p = static_cast<CompoundVector*>(GetRawPtr(x))->GetCompNonConst(s.below(nc));
               p->Set(a);
            }
            else
               static_cast<DenseVector*>(GetRawPtr(x))->Values()[0] = a;
            break;
         case 18:
            if( !comp )
            {
               std::vector<double> v(n, a);
               static_cast<DenseVector*>(GetRawPtr(x))->SetValues(v.data());
            }
            if( comp )
               x->Set(a);
            break;
         case 19: (void)x->Max(); mut = false; break;
         case 20: (void)x->Dot(*y); mut = false; break;
         case 21: (void)x->FracToBound(*y, 0.9); mut = false; break;
         case 22: y->Axpy(0.25, *x); if( y->Amax() > 1e3 ) y->Set(2.5); mut = false; break;
         case 23: (void)x->MakeNewCopy(); mut = false; break;
         case 24: (void)x->SumLogs(); (void)x->HasValidNumbers(); mut = false; break;
         default: (void)x->Sum(); mut = false;
      }
      c.desc << fmt("operation %d a %g b %g\n", what, a, b);
      int got = -1;
      bool hit = cache.GetCachedResult1Dep(got, t);
      if( mut )
      {
         PBT_CHECK(c, x->HasChanged(old), "tag-vector", "tag of the vector unchanged by operation %d", what);
         PBT_CHECK(c, used.insert(x->GetTag()).second, "tag-used", "tag of the vector was used before (operation %d)", what);
         PBT_CHECK(c, !hit, "stale-vector", "cached result still valid after operation %d", what);
      }
      else
         PBT_CHECK(c, hit && !x->HasChanged(old), "changed", "operation %d, which does not change the vector, invalidates results", what);
      // derived values belong to the current content
      SmartPtr<Vector> f = x->MakeNew();
      f->Set(0.);
      for( int k = 0; k < (comp ? nc : 1); ++k )
      {
         const DenseVector* src = comp ? static_cast<const DenseVector*>(GetRawPtr(static_cast<CompoundVector*>(GetRawPtr(x))->GetComp(k))) : static_cast<DenseVector*>(GetRawPtr(x));
         DenseVector* dst = comp ? static_cast<DenseVector*>(GetRawPtr(static_cast<CompoundVector*>(GetRawPtr(f))->GetCompNonConst(k))) : static_cast<DenseVector*>(GetRawPtr(f));
         const double* v = src->ExpandedValues();
         double* w = dst->Values();
         for( int q = 0; q < n; ++q )
            w[q] = v[q];
      }
      double want[6] = {f->Nrm2(), f->Asum(), f->Amax(), f->Max(), f->Min(), f->Sum()}, got6[6] = {x->Nrm2(), x->Asum(), x->Amax(), x->Max(), x->Min(), x->Sum()};
      for( int k = 0; k < 6; ++k )
         PBT_CHECK(c, std::fabs(want[k] - got6[k]) <= 1e-12 * (1 + std::fabs(want[k])) * (1 + f->Asum()) || want[k] != want[k], "cached-norm", "after operation %d: derived value %d is %g instead of %g (before: %g)", what, k, got6[k], want[k], nrm[k]);
      if( !(x->Amax() < 1e4) || x->Min() <= 1e-4 )
      {
         x->Set(1.5);
         used.insert(x->GetTag());
      }
   }
   c.nontrivial = nops >= 2;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P35", "history with hits and misses of the cache; two notifications received; two operations",
      {{"cache", f_cache, 300000, 6000000}, {"observers", f_observers, 300000, 6000000}, {"vectors", f_vectors, 100000, 2000000}}
   };
   return pbt::run_main(argc, argv, k);
}
