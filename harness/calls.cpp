// How often and to what algorithms apply the operations they are given (P34).
#include "common.h"
#ifndef NL
#define NL 4
#endif
#ifndef NS
#define NS 3
#endif
enum { MAXC = 4096 };
static int g_a[MAXC], g_b[MAXC], g_n;       // the applications so far: identities of the arguments
static void called(int a, int b) { A_(g_n < MAXC, "a bounded number of applications"); g_a[g_n] = a; g_b[g_n] = b; ++g_n; }
struct Z { int v, id; Z(int x = 0, int i = -1): v(x), id(i) {} };
static bool operator==(const Z &a, const Z &b) { called(a.id, b.id); return a.v == b.v; }
static bool operator<(const Z &a, const Z &b) { called(a.id, b.id); return a.v < b.v; }
static bool operator!=(const Z &a, const Z &b) { called(a.id, b.id); return a.v != b.v; }
#ifdef VP_PERMISSIVE
static bool operator>(const Z &a, const Z &b) { called(a.id, b.id); return a.v > b.v; }
static bool operator<=(const Z &a, const Z &b) { called(a.id, b.id); return a.v <= b.v; }
static bool operator>=(const Z &a, const Z &b) { called(a.id, b.id); return a.v >= b.v; }
#endif
static bool Q(bool b) { return vp_concretize(b); }
#ifdef LARGE     // known values, in order
#define VAL (i / 3)
#else
#define VAL vp_int("x")
#endif
struct Rng { Z *a; int n, o[128]; Rng(int k, int base): a(new Z[k]), n(k) { for (int i = 0; i < n; ++i) { o[i] = VAL; a[i] = Z(o[i], base + i); } } ~Rng() { delete [] a; } Z *b() { return a; } Z *e() { return a + n; } };
// a stateful predicate: it answers from its own table and logs what it was asked about
struct Pr { unsigned t; bool operator()(const Z &x) const { called(x.id, -2); return (t >> (x.v & 7)) & 1; } };
struct Op { int k; int operator()(const Z &x) const { called(x.id, -2); return x.v ^ k; } };
struct Op2 { int operator()(const Z &x, const Z &y) const { called(x.id, y.id); return x.v ^ y.v; } };
struct Bp { unsigned t; bool operator()(const Z &x, const Z &y) const { called(x.id, y.id); return (t >> ((x.v & 3) * 4 + (y.v & 3))) & 1; } };
static bool ans(unsigned t, int v) { return (t >> (v & 7)) & 1; }
static bool ans2(unsigned t, int x, int y) { return (t >> ((x & 3) * 4 + (y & 3))) & 1; }
// each of the first k elements exactly once, nothing else
static void once(int k, int base, const char *m)
{
   bool seen[128]; for (int i = 0; i < k; ++i) seen[i] = false; A_(g_n == k, m);
   for (int i = 0; i < g_n; ++i) { int id = g_a[i] - base; A_(id >= 0 && id < k && !seen[id], m); seen[id] = true; }
}
static void inorder(int k, const char *m) { A_(g_n == k, m); for (int i = 0; i < g_n; ++i) A_(g_a[i] == i, m); }
#define ONCE "the function is applied exactly once to every element that has to be examined and to no other"
VP_ENTRY(c_unary)
{
   Rng r(SZ("n", NL + 2), 0); unsigned t = vp_u32("table"); Pr p; p.t = t; Z *d = new Z[r.n + 1]; int n = r.n, k = 0; g_n = 0;
   int op = vp_choice("op", 13);
   switch (op) {
   case 0: ttl::find_if(r.b(), r.e(), p); while (k < n && !Q(ans(t, r.o[k]))) ++k; if (k < n) ++k; once(k, 0, ONCE); vp_reach("calls find"); break;
   case 1: ttl::find_if_not(r.b(), r.e(), p); while (k < n && Q(ans(t, r.o[k]))) ++k; if (k < n) ++k; once(k, 0, ONCE); break;
   case 2: ttl::all_of(r.b(), r.e(), p); while (k < n && Q(ans(t, r.o[k]))) ++k; if (k < n) ++k; once(k, 0, ONCE); break;
   case 3: ttl::any_of(r.b(), r.e(), p); while (k < n && !Q(ans(t, r.o[k]))) ++k; if (k < n) ++k; once(k, 0, ONCE); break;
   case 4: ttl::none_of(r.b(), r.e(), p); while (k < n && !Q(ans(t, r.o[k]))) ++k; if (k < n) ++k; once(k, 0, ONCE); break;
   case 5: ttl::count_if(r.b(), r.e(), p); once(n, 0, ONCE); break;
   case 6: ttl::copy_if(r.b(), r.e(), d, p); once(n, 0, ONCE); break;
   case 7: ttl::remove_copy_if(r.b(), r.e(), d, p); once(n, 0, ONCE); break;
   case 8: ttl::replace_copy_if(r.b(), r.e(), d, p, Z(7, 500)); once(n, 0, ONCE); break;
   case 9: ttl::replace_if(r.b(), r.e(), p, Z(7, 500)); once(n, 0, ONCE); break;
   case 10: ttl::remove_if(r.b(), r.e(), p); once(n, 0, ONCE); vp_reach("calls remove"); break;
   case 11: { int *q = new int[n + 1]; Op o; o.k = 5; ttl::transform(r.b(), r.e(), q, o); once(n, 0, ONCE); delete [] q; break; }
   case 12: { Op o; o.k = 0; ttl::for_each(r.b(), r.e(), o); inorder(n, "for_each applies the function once to every element in order"); break; }
   }
   delete [] d;
}
// pairs (i, i) for i below k
static void diag(int k, int base, const char *m)
{
   bool seen[128]; for (int i = 0; i < k; ++i) seen[i] = false; A_(g_n == k, m);
   for (int i = 0; i < g_n; ++i) { A_(g_a[i] >= 0 && g_a[i] < k && g_b[i] == base + g_a[i] && !seen[g_a[i]], m); seen[g_a[i]] = true; }
}
VP_ENTRY(c_pairs)
{
   int n = SZ("n", NL + 1); bool two = vp_choice("both ends", 2), pr = vp_choice("pred", 2); Rng r(n, 0), s(two ? SZ("m", NL + 1) : n, 100); unsigned t = vp_u32("table"); Bp p; p.t = t; int k = 0, m = n < s.n ? n : s.n; g_n = 0;
   switch (vp_choice("op", 3)) {
   case 0: if (two) { if (pr) ttl::equal(r.b(), r.e(), s.b(), s.e(), p); else ttl::equal(r.b(), r.e(), s.b(), s.e()); } else if (pr) ttl::equal(r.b(), r.e(), s.b(), p); else ttl::equal(r.b(), r.e(), s.b());
      while (k < m && Q(pr ? ans2(t, r.o[k], s.o[k]) : r.o[k] == s.o[k])) ++k; if (k < m) ++k;
      A_(g_n <= k, ONCE); for (int i = 0; i < g_n; ++i) A_(g_a[i] == i && g_b[i] == 100 + i, ONCE); if (!two || n == s.n) A_(g_n == k, ONCE); break;   // different lengths may be noticed without looking at any element
   case 1: if (two) { if (pr) ttl::mismatch(r.b(), r.e(), s.b(), s.e(), p); else ttl::mismatch(r.b(), r.e(), s.b(), s.e()); } else if (pr) ttl::mismatch(r.b(), r.e(), s.b(), p); else ttl::mismatch(r.b(), r.e(), s.b());
      while (k < m && Q(pr ? ans2(t, r.o[k], s.o[k]) : r.o[k] == s.o[k])) ++k; if (k < m) ++k; diag(k, 100, ONCE); break;
   case 2: if (s.n >= n) { int *q = new int[n + 1]; ttl::transform(r.b(), r.e(), s.b(), q, Op2()); diag(n, 100, ONCE); delete [] q; } break;
   }
}
VP_ENTRY(c_neighbours)
{
   Rng r(SZ("n", NL + 2), 0); int n = r.n, k = 0; bool pr = vp_choice("pred", 2); unsigned t = vp_u32("table"); Bp p; p.t = t; g_n = 0;
   if (vp_choice("op", 2)) {
      if (pr) ttl::adjacent_find(r.b(), r.e(), p); else ttl::adjacent_find(r.b(), r.e());
      while (k + 1 < n && !Q(pr ? ans2(t, r.o[k], r.o[k+1]) : r.o[k] == r.o[k+1])) ++k; if (k + 1 < n) ++k;
   } else { if (pr) ttl::is_sorted(r.b(), r.e()); else ttl::is_sorted_until(r.b(), r.e()); while (k + 1 < n && !Q(r.o[k+1] < r.o[k])) ++k; if (k + 1 < n) ++k; }
   A_(g_n == k, "neighbours are compared exactly once, up to the deciding ones");
   bool seen[128]; for (int i = 0; i < n; ++i) seen[i] = false;
   for (int i = 0; i < g_n; ++i) { int lo = g_a[i] < g_b[i] ? g_a[i] : g_b[i], d = g_b[i] - g_a[i]; A_((d == 1 || d == -1) && lo >= 0 && lo < k && !seen[lo], "neighbours are compared exactly once, up to the deciding ones"); seen[lo] = true; }
}
VP_ENTRY(c_values)       // comparisons with a given value
{
   Rng r(SZ("n", NL + 2), 0); int n = r.n, k = 0, x = vp_int("v"); Z v(x, 900), w(7, 901); Z *d = new Z[n + 1]; g_n = 0; int op = vp_choice("op", 6);
   switch (op) {
   case 0: ttl::find(r.b(), r.e(), v); while (k < n && !Q(r.o[k] == x)) ++k; if (k < n) ++k; break;
   case 1: ttl::count(r.b(), r.e(), v); k = n; break;
   case 2: ttl::remove(r.b(), r.e(), v); k = n; break;
   case 3: ttl::remove_copy(r.b(), r.e(), d, v); k = n; break;
   case 4: ttl::replace(r.b(), r.e(), v, w); k = n; break;
   case 5: ttl::replace_copy(r.b(), r.e(), d, v, w); k = n; break;
   }
   A_(g_n == k, "every element that has to be examined is compared exactly once"); bool seen[128]; for (int i = 0; i < n; ++i) seen[i] = false;
   for (int i = 0; i < g_n; ++i) { int id = g_a[i] == 900 ? g_b[i] : g_a[i]; A_((g_a[i] == 900 || g_b[i] == 900) && id >= 0 && id < k && !seen[id], "every element that has to be examined is compared exactly once"); seen[id] = true; }
   delete [] d;
}
VP_ENTRY(c_search)
{
   Rng r(SZ("n", NL + 1), 0), s(SZ("m", NS + 1), 100); bool pr = vp_choice("pred", 2); unsigned t = vp_u32("table"); Bp p; p.t = t; int n = r.n, m = s.n; g_n = 0;
   if (vp_choice("op", 2)) { if (pr) ttl::search(r.b(), r.e(), s.b(), s.e(), p); else ttl::search(r.b(), r.e(), s.b(), s.e()); A_(g_n <= n * m, "search compares at most as often as both lengths multiplied"); for (int i = 0; i < g_n; ++i) A_((g_a[i] < n && g_b[i] >= 100 && g_b[i] < 100 + m) || (!pr && g_b[i] < n && g_a[i] >= 100), "search compares elements of the range with elements of the pattern"); }
   else { Z v(vp_int("v"), 900); if (pr) ttl::search_n(r.b(), r.e(), m, v, p); else ttl::search_n(r.b(), r.e(), m, v); A_(g_n <= n, "search_n examines every element at most once"); for (int i = 0; i < g_n; ++i) A_(g_a[i] >= 0 && g_a[i] < n && g_b[i] == 900 || (!pr && g_a[i] == 900), "search_n compares elements of the range with the value"); }
}
VP_ENTRY(c_order)
{
   int op = vp_choice("op", 7); g_n = 0;
   if (op == 0) {
      Rng r(SZ("n", NL + 1), 0), s(SZ("m", NS + 1), 100); int n = r.n, m = s.n; for (int i = 1; i < n; ++i) vp_assume(r.o[i-1] <= r.o[i]); for (int i = 1; i < m; ++i) vp_assume(s.o[i-1] <= s.o[i]);
      Z *d = new Z[n + m]; ttl::merge(r.b(), r.e(), s.b(), s.e(), d); A_(g_n <= (n + m ? n + m - 1 : 0), "merge compares less often than there are elements"); delete [] d; if (n && m) vp_reach("calls merge");
   } else if (op < 4) {
      Rng r(SZ("n", NL + 1), 0); int n = r.n, l = n ? n - 1 : 0;
      if (op == 1) ttl::min_element(r.b(), r.e()); else if (op == 2) ttl::max_element(r.b(), r.e()); else { ttl::minmax_element(r.b(), r.e()); l *= 2; }
      A_(g_n <= l, "extrema are found with one comparison per further element (both: two)");
   } else { Z a(vp_int("a"), 1), b(vp_int("b"), 2); if (op == 4) ttl::min(a, b); else if (op == 5) ttl::max(a, b); else ttl::minmax(a, b); A_(g_n == 1, "two values are compared once"); }
}
// the member functions of list that take operations
struct Odd { bool operator()(const Z &x) const { called(x.id, -2); return x.v & 1; } };
VP_ENTRY(c_list)
{
   { ttl::list<Z> a, b; int op = vp_choice("op", 5), n = SZ("n", NL + 1), m = op == 0 ? SZ("m", NS + 1) : 0, o[128], q[128];
   for (int i = 0; i < n; ++i) { o[i] = VAL; if (op == 0 && i) vp_assume(o[i-1] <= o[i]); a.push_back(Z(o[i], i)); } for (int i = 0; i < m; ++i) { q[i] = VAL; if (i) vp_assume(q[i-1] <= q[i]); b.push_back(Z(q[i], 100 + i)); }
   g_n = 0;
   switch (op) {
   case 0: a.merge(b); A_(g_n <= 2 * (n + m), "the comparisons of merge grow with the elements, not with their product"); if (n && m) vp_reach("calls list merge"); break;
   case 1: a.unique(); A_(g_n == (n ? n - 1 : 0), "unique compares neighbours once"); break;
   case 2: { Z v(vp_int("v"), 900); a.remove(v); A_(g_n == n, "remove compares every element once"); break; }
   case 3: a.remove_if(Odd()); once(n, 0, ONCE); break;
   case 4: { Bp p; p.t = vp_u32("table"); a.unique(p); A_(g_n == (n ? n - 1 : 0), "unique compares neighbours once"); break; }
   } }
   A_(vp_heap_live() == 0, "every node released");
}
// copies of elements: as many as places written
struct K { int v; static int copies; K(int x = 0): v(x) {} K(const K &o): v(o.v) { ++copies; } K &operator=(const K &o) { v = o.v; ++copies; return *this; } };
int K::copies;
static bool operator==(const K &a, const K &b) { return a.v == b.v; }
VP_ENTRY(c_copies)
{
   int n = SZ("n", NL + 2); K *a = new K[n + 1], *d = new K[n + 1]; for (int i = 0; i < n; ++i) a[i].v = vp_int("x"); K::copies = 0;
   switch (vp_choice("op", 6)) {
   case 0: ttl::copy(a, a + n, d); break; case 1: ttl::copy_backward(a, a + n, d + n); break; case 2: ttl::copy_n(a, n, d); break;
   case 3: ttl::fill(a, a + n, K(3)); break; case 4: ttl::fill_n(a, n, K(3)); break; case 5: ttl::reverse_copy(a, a + n, d); break;
   }
   A_(K::copies == n, "every place is written once"); delete [] a; delete [] d;
}
