// P42: flattening nested matrices and converting formats loses nothing.
#include "pbt.hpp"
#include "matnest.hpp"
#include "IpTripletHelper.hpp"
#include "IpTripletToCSRConverter.hpp"
using namespace Ipopt;
using namespace mat;
static double other(Src& s)
{
   return s.flip() ? s.integer(-7, 7) : val(s);
}
// the matrix column by column from products with unit vectors (decided by P41)
static D dense(const Mat& m)
{
   D d(m.d.r, m.d.c);
   for( int j = 0; j < d.c; ++j )
   {
      SmartPtr<Vector> x = m.col->MakeNew(), y = m.row->MakeNew();
      V e(d.c, 0.);
      e[j] = 1;
      put(*x, e);
      m.m->MultVector(1., *x, 0., *y);
      V v = flat(*y);
      for( int i = 0; i < d.r; ++i )
         d(i, j) = v[i];
   }
   return d;
}
struct Trip
{
   std::vector<Index> r, c;
   V v;
};
static D assemble(const Trip& t, int n, int k, bool sym, D& sc)
{
   D d(n, k);
   sc = D(n, k);
   for( size_t e = 0; e < t.v.size(); ++e )
   {
      int i = t.r[e], j = t.c[e];
      d(i, j) += t.v[e], sc(i, j) += std::fabs(t.v[e]);
      if( sym && i != j )
         d(j, i) += t.v[e], sc(j, i) += std::fabs(t.v[e]);
   }
   return d;
}
static void compare(Ctx& c, const D& got, const D& want, const D& s1, const D& s2, const char* key, const char* what)
{
   for( int i = 0; i < want.r; ++i )
      for( int j = 0; j < want.c; ++j )
         PBT_CHECK(c, std::fabs(got(i, j) - want(i, j)) <= 1e-13 * (s1(i, j) + s2(i, j)) + 1e-300, key, "%s: entry (%d,%d) is %.17g instead of %.17g", what, i, j, got(i, j), want(i, j));
}
static Trip flatten(Ctx& c, const Mat& m, bool sym, int ro, int co, Index nnz)
{
   Trip t;
   const Index guard = -77;
   std::vector<Index> R(nnz + 2, guard), C(nnz + 2, guard);
   V v(nnz + 2, 1234.5);
   TripletHelper::FillRowCol(nnz, *m.m, R.data() + 1, C.data() + 1, ro, co);
   TripletHelper::FillValues(nnz, *m.m, v.data() + 1);
   PBT_CHECK(c, R[0] == guard && C[0] == guard && R[nnz + 1] == guard && C[nnz + 1] == guard && v[0] == 1234.5 && v[nnz + 1] == 1234.5, "overrun", "more entries than announced (%d) were written", (int)nnz);
   for( Index e = 1; e <= nnz; ++e )
   {
      int i = R[e] - 1 - ro, j = C[e] - 1 - co;
      PBT_CHECK(c, i >= 0 && i < m.d.r && j >= 0 && j < m.d.c, "position", "entry %d at (%d,%d) with offsets %d,%d of a %dx%d matrix", (int)e - 1, (int)R[e], (int)C[e], ro, co, m.d.r, m.d.c);
      t.r.push_back(i), t.c.push_back(j), t.v.push_back(v[e]);
   }
   (void) sym;
   return t;
}
static void f_triplet(Ctx& c)
{
   Src& s = c.src;
   Opt o;
   o.trip = true;
   bool sym = s.flip();
   VSp R = gen_space(c, s.integer(0, 2)), C = R;
   if( !sym )
   {
      c.desc << " :";
      if( !s.flip(0.3) )
         C = gen_space(c, s.integer(0, 2));
   }
   Mat m = sym ? gen_sym(c, R, s.integer(0, 3), o) : gen(c, R, C, s.integer(0, 3), o);
   Index nnz = TripletHelper::GetNumberEntries(*m.m);
   PBT_CHECK(c, nnz >= 0, "count", "negative number of entries");
   int ro = s.flip() ? 0 : s.integer(0, 20), co = sym || s.flip() ? ro : s.integer(0, 20);
   Trip t = flatten(c, m, sym, ro, co, nnz), last = t;
   D sc, d = assemble(t, m.d.r, m.d.c, sym, sc);
   compare(c, d, m.d, m.scale, sc, "value", "flattened matrix");
   bool ch = false;
   for( int k = s.integer(0, 3); k > 0 && m.poison; --k )
   {
      // put new values somewhere: same places, new values
      bad_hook() = other;
      m.poison(s);
      bad_hook() = NULL;
      ch = true;
      D now = dense(m);
      PBT_CHECK(c, TripletHelper::GetNumberEntries(*m.m) == nnz, "count-later", "number of entries changed with the values");
      Trip u = flatten(c, m, sym, ro, co, nnz);
      PBT_CHECK(c, u.r == t.r && u.c == t.c, "places", "the places of the entries changed with the values");
      D sc2, d2 = assemble(u, m.d.r, m.d.c, sym, sc2);
      for( double& q : sc2.a ) q *= 100;  // cancellation in the products
      D big(m.d.r, m.d.c);
      double mx = 0;
      for( double q : sc2.a ) mx = std::max(mx, q);
      compare(c, d2, now, sc2, big, "value-later", "flattened matrix after a change");
   }
   c.nontrivial = nnz > 0;
   c.label(sym ? "symmetric" : "general");
   if( ch ) c.label("changed later");
}
static void f_csr(Ctx& c)
{
   Src& s = c.src;
   int off = s.flip();
   bool full = s.flip();
   TripletToCSRConverter conv(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format);
   int uses = s.flip(0.2) ? 2 : 1;
   for( int use = 0; use < uses; ++use )  // a converter can be initialized again
   {
      int n = s.integer(1, 9);
      std::vector<Index> I, J;
      V vals;
      if( s.flip(0.4) )
      {
         // as the linear solver interface does it: a flattened nest
         Opt o;
         o.trip = true;
         Mat m = gen_sym(c, gen_space(c, 2), 3, o);
         Index nnz = TripletHelper::GetNumberEntries(*m.m);
         n = m.d.r;
         I.resize(nnz), J.resize(nnz), vals.resize(nnz);
         TripletHelper::FillRowCol(nnz, *m.m, I.data(), J.data());
         TripletHelper::FillValues(nnz, *m.m, vals.data());
         if( n == 0 )
            c.discard();
         c.label("nest");
      }
      else
      {
         int nnz = s.flip(0.05) ? 0 : s.integer(1, 3 * n);
         int lo = s.flip(0.3) ? s.below(n) : 0, hi = s.flip(0.3) ? lo + s.below(n - lo) : n - 1;
         for( int k = 0; k < nnz; ++k )
         {
            I.push_back(lo + s.below(hi - lo + 1) + 1);
            J.push_back(s.flip(0.3) ? I.back() : lo + s.below(hi - lo + 1) + 1);
            vals.push_back(val(s));
         }
         c.label("random");
      }
      if( s.flip(0.2) )
         for( int i = 1; i <= n; ++i )  // extra diagonal, as the dependency detector adds it
            I.push_back(i), J.push_back(i), vals.push_back(s.flip() ? 0. : val(s));
      c.desc << fmt(" n %d offset %d %s:", n, off, full ? "full" : "triangular");
      for( size_t k = 0; k < I.size(); ++k )
         c.desc << fmt(" %d,%d:%g", (int)I[k], (int)J[k], vals[k]);
      Index nz = (Index)I.size();
      Index nzc = conv.InitializeConverter(n, nz, I.data(), J.data());
      if( nz == 0 )
      {
         PBT_CHECK(c, nzc == 0, "empty", "%d entries of an empty matrix", (int)nzc);
         continue;
      }
      std::set<std::pair<int, int> > want;
      for( Index k = 0; k < nz; ++k )
      {
         int a = std::min(I[k], J[k]), b = std::max(I[k], J[k]);
         want.insert(std::make_pair(a - 1, b - 1));
         if( full )
            want.insert(std::make_pair(b - 1, a - 1));
      }
      PBT_CHECK(c, nzc == (Index)want.size(), "count", "%d compressed entries instead of %d", (int)nzc, (int)want.size());
      const Index* ia = conv.IA();
      const Index* ja = conv.JA();
      PBT_CHECK(c, ia[0] == off && ia[n] == nzc + off, "ia", "row pointers begin with %d and end with %d for %d entries", (int)ia[0], (int)ia[n], (int)nzc);
      for( int i = 0; i < n; ++i )
      {
         PBT_CHECK(c, ia[i] <= ia[i + 1], "ia", "row pointers decrease at row %d", i);
         for( Index k = ia[i] - off; k < ia[i + 1] - off; ++k )
         {
            PBT_CHECK(c, k == ia[i] - off || ja[k - 1] < ja[k], "sorted", "entries of row %d are not sorted and unique", i);
            PBT_CHECK(c, want.count(std::make_pair(i, (int)(ja[k] - off))) == 1, "place", "unexpected entry (%d,%d)", i, (int)(ja[k] - off));
         }
      }
      for( Index k = 0; k < nzc; ++k )
         PBT_CHECK(c, conv.iPosFirst()[k] >= 0 && conv.iPosFirst()[k] < nz, "first", "position %d of a first entry", (int)conv.iPosFirst()[k]);
      for( int rep = s.integer(1, 2); rep > 0; --rep )
      {
         V a(nzc + 1, 77.5);
         conv.ConvertValues(nz, vals.data(), nzc, a.data());
         PBT_CHECK(c, a[nzc] == 77.5, "overrun", "values written behind the end");
         D d(n, n), sc(n, n);
         for( Index k = 0; k < nz; ++k )
         {
            int p = std::min(I[k], J[k]) - 1, q = std::max(I[k], J[k]) - 1;
            d(p, q) += vals[k], sc(p, q) += std::fabs(vals[k]);
            if( full && p != q )
               d(q, p) += vals[k], sc(q, p) += std::fabs(vals[k]);
         }
         for( int i = 0; i < n; ++i )
            for( Index k = ia[i] - off; k < ia[i + 1] - off; ++k )
               PBT_CHECK(c, std::fabs(a[k] - d(i, ja[k] - off)) <= 1e-14 * sc(i, ja[k] - off), "value", "entry (%d,%d) is %.17g instead of %.17g", i, (int)(ja[k] - off), a[k], d(i, ja[k] - off));
         for( double& v : vals )
            v = val(s);
      }
      c.nontrivial = c.nontrivial || nzc > 1;
      if( (Index)want.size() < (full ? 2 : 1) * nz ) c.label("duplicates or diagonal");
   }
   c.label(full ? "full" : "triangular");
}
static void f_vector(Ctx& c)
{
   Src& s = c.src;
   VSp S = gen_space(c, s.integer(0, 3));
   int n = S->Dim();
   SmartPtr<Vector> x = S->MakeNew(), y = S->MakeNew();
   V xv = fill(s, *x, val);
   V a(n + 2, 55.);
   TripletHelper::FillValuesFromVector(n, *x, a.data() + 1);
   PBT_CHECK(c, a[0] == 55. && a[n + 1] == 55., "overrun", "written outside of the array");
   PBT_CHECK(c, V(a.begin() + 1, a.end() - 1) == xv, "take", "values taken from the vector differ");
   fill(s, *y, val);
   Number before = y->Asum();
   TaggedObject::Tag t = y->GetTag();
   TripletHelper::PutValuesInVector(n, a.data() + 1, *y);
   PBT_CHECK(c, flat(*y) == xv, "put", "values put into the vector differ");
   double want = 0;
   for( double q : xv ) want += std::fabs(q);
   PBT_CHECK(c, std::fabs(y->Asum() - want) <= 1e-13 * want, "stale", "the sum %g of the vector belongs to other values (%g; before %g)", y->Asum(), want, before);
   PBT_CHECK(c, n == 0 || y->GetTag() != t || before == y->Asum(), "tag", "the vector did not notice the change");
   c.nontrivial = n > 1;
}
int main(int argc, char** argv)
{
   pbt::Check k = {"P42", "at least one entry (two elements of a vector, two entries of a compressed matrix)",
      {{"triplet", f_triplet, 500000, 20000000}, {"csr", f_csr, 500000, 20000000}, {"vector", f_vector, 200000, 5000000}}
   };
   return pbt::run_main(argc, argv, k);
}
