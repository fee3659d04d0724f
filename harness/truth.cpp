// Predicates and comparisons whose results are not bool: anything but zero means yes. The result is that of the bool predicate
// (which the other harnesses decide against the definitions).
#include "common.h"
#ifndef NL
#define NL 4
#endif
#ifndef NS
#define NS 2
#endif
static const long yes[] = { 256, -2, 1L << 40 };
struct Un { unsigned t; bool operator()(int x) const { return (t >> (x & 7)) & 1; } };
struct Bi { unsigned t; bool operator()(int x, int y) const { return (t >> ((x & 3) * 4 + (y & 3))) & 1; } };
struct Lt { bool operator()(int x, int y) const { return (x >> 1) < (y >> 1); } };
template<class P> struct Y { P p; long k; long operator()(int x) const { return p(x) ? k : 0; } };
template<class P> struct Y2 { P p; long k; long operator()(int x, int y) const { return p(x, y) ? k : 0; } };
// a pointer is a condition as well
#ifdef VP_PERMISSIVE
typedef long Cond;
static Cond cond(bool b) { return b ? -4096 : 0; }
#else
typedef const char *Cond;
static Cond cond(bool b) { return b ? "yes" : 0; }
#endif
struct Ptr { Un p; Cond operator()(int x) const { return cond(p(x)); } };
struct Rng { int n, *a; Rng(int k): n(k), a(new int[k]) { for (int i = 0; i < n; ++i) a[i] = vp_int("x"); } Rng(const Rng &o): n(o.n), a(new int[o.n]) { for (int i = 0; i < n; ++i) a[i] = o.a[i]; } ~Rng() { delete [] a; }
   void sort() { for (int i = 1; i < n; ++i) vp_assume((a[i-1] >> 1) <= (a[i] >> 1)); } int *b() const { return a; } int *e() const { return a + n; }
   bool same(const Rng &o) const { bool r = n == o.n; for (int i = 0; i < n; ++i) r = r & (a[i] == o.a[i]); return r; } };
#define M "anything but zero is a yes"
template<class T, class P> static void unary(const T &t, const P &p)
{
   Rng r(SZ("n", NL + 1)), s(r); int *d = new int[r.n + 1], *f = new int[r.n + 1]; for (int i = 0; i <= r.n; ++i) d[i] = f[i] = 9; const int *b = r.a, *z = r.e();
   switch (vp_choice("op", 10)) {
   case 0: A_(ttl::find_if(b, z, t) == ttl::find_if(b, z, p), M); break;
   case 1: A_(ttl::find_if_not(b, z, t) == ttl::find_if_not(b, z, p), M); break;
   case 2: A_(ttl::all_of(b, z, t) == ttl::all_of(b, z, p), M); break;
   case 3: A_(ttl::any_of(b, z, t) == ttl::any_of(b, z, p) && ttl::none_of(b, z, t) == ttl::none_of(b, z, p), M); break;
   case 4: A_(ttl::count_if(b, z, t) == ttl::count_if(b, z, p), M); break;
   case 5: A_(ttl::copy_if(b, z, d, t) - d == ttl::copy_if(b, z, f, p) - f, M); break;
   case 6: A_(ttl::remove_copy_if(b, z, d, t) - d == ttl::remove_copy_if(b, z, f, p) - f, M); break;
   case 7: A_(ttl::replace_copy_if(b, z, d, t, 5) - d == ttl::replace_copy_if(b, z, f, p, 5) - f, M); break;
   case 8: ttl::replace_if(r.b(), r.e(), t, 5); ttl::replace_if(s.b(), s.e(), p, 5); break;
   case 9: { int k = (int)(ttl::remove_if(r.b(), r.e(), t) - r.a); A_(k == ttl::remove_if(s.b(), s.e(), p) - s.a, M); for (int i = k; i < r.n; ++i) r.a[i] = s.a[i]; break; }
   }
   bool ok = true; for (int i = 0; i <= r.n; ++i) ok = ok & (d[i] == f[i]); A_(ok & r.same(s), M); delete [] d; delete [] f;
}
VP_ENTRY(t_unary) { Un p; p.t = vp_u32("table"); int k = vp_choice("yes", 4); if (k == 3) { Ptr t; t.p = p; unary(t, p); } else { Y<Un> t; t.p = p; t.k = yes[k]; unary(t, p); } A_(vp_heap_live() == 0, "memory released"); }
VP_ENTRY(t_binary)
{
   { Rng r(SZ("n", NL + 1)); Bi p; p.t = vp_u32("table"); Y2<Bi> t; t.p = p; t.k = yes[vp_choice("yes", 3)]; const int *b = r.a, *z = r.e();
   switch (vp_choice("op", 6)) {
   case 0: A_(ttl::adjacent_find(b, z, t) == ttl::adjacent_find(b, z, p), M); break;
   case 1: { Rng s(SZ("m", NS + 1)); A_(ttl::search(b, z, s.b(), s.e(), t) == ttl::search(b, z, s.b(), s.e(), p), M); break; }
   case 2: { int v = vp_int("v"), k = SZ("count", NS + 1); A_(ttl::search_n(b, z, k, v, t) == ttl::search_n(b, z, k, v, p), M); break; }
   case 3: { Rng s(r.n); A_(ttl::equal(b, z, s.b(), t) == ttl::equal(b, z, s.b(), p) && ttl::equal(b, z, s.b(), s.e(), t) == ttl::equal(b, z, s.b(), s.e(), p), M); break; }
   case 4: { Rng s(SZ("m", NL + 1)); ttl::pair<const int *, const int *> g = ttl::mismatch(b, z, (const int *)s.a, (const int *)s.e(), t), h = ttl::mismatch(b, z, (const int *)s.a, (const int *)s.e(), p); A_(g.first == h.first && g.second == h.second, M); break; }
   case 5: { Rng s(r.n); ttl::pair<const int *, const int *> g = ttl::mismatch(b, z, (const int *)s.a, t), h = ttl::mismatch(b, z, (const int *)s.a, p); A_(g.first == h.first && g.second == h.second, M); break; }
   } }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(t_order)
{
   { Rng r(SZ("n", NL + 1)); Lt p; Y2<Lt> t; t.k = yes[vp_choice("yes", 3)]; const int *b = r.a, *z = r.e(); int op = vp_choice("op", 6), v = vp_int("v"); if (op < 4) r.sort();
   switch (op) {
   case 0: A_(ttl::lower_bound(b, z, v, t) == ttl::lower_bound(b, z, v, p), M); break;
   case 1: A_(ttl::upper_bound(b, z, v, t) == ttl::upper_bound(b, z, v, p), M); break;
   case 2: A_(ttl::binary_search(b, z, v, t) == ttl::binary_search(b, z, v, p), M); break;
   case 3: { ttl::pair<const int *, const int *> g = ttl::equal_range(b, z, v, t), h = ttl::equal_range(b, z, v, p); A_(g.first == h.first && g.second == h.second, M); break; }
   case 4: { int w = vp_int("w"); A_((ttl::min(v, w, t) == ttl::min(v, w, p)) & (ttl::max(v, w, t) == ttl::max(v, w, p)), M); break; }
   case 5: { int w = vp_int("w"); ttl::pair<const int &, const int &> g = ttl::minmax(v, w, t), h = ttl::minmax(v, w, p); A_(&g.first == &h.first && &g.second == &h.second, M); break; }
   } }
   A_(vp_heap_live() == 0, "memory released");
}
typedef ttl::list<int> L;
static void eq(L &a, L &b) { L::iterator i = a.begin(), j = b.begin(); bool ok = true; for (; i != a.end() && j != b.end(); ++i, ++j) ok = ok & (*i == *j); A_(ok && i == a.end() && j == b.end() && a.size() == b.size(), M); }
VP_ENTRY(t_list)
{
   { Rng r(SZ("n", NL + 1)); int op = vp_choice("op", 3); if (op == 2) r.sort(); L a(r.b(), r.e()), b(r.b(), r.e()); long k = yes[vp_choice("yes", 3)];
   switch (op) {
   case 0: { Un p; p.t = vp_u32("table"); Y<Un> t; t.p = p; t.k = k; a.remove_if(t); b.remove_if(p); break; }
   case 1: { Bi p; p.t = vp_u32("table"); Y2<Bi> t; t.p = p; t.k = k; a.unique(t); b.unique(p); break; }
   case 2: { Lt p; Y2<Lt> t; t.k = k; Rng s(SZ("m", NS + 1)); s.sort(); L c(s.b(), s.e()), d(s.b(), s.e()); a.merge(c, t); b.merge(d, p); A_(c.empty() && d.empty(), M); break; }
   }
   eq(a, b); }
   A_(vp_heap_live() == 0, "memory released");
}
struct KL { long operator()(int x, int y) const { return x < y ? 256 : 0; } };
struct KP { Cond operator()(int x, int y) const { return cond(x < y); } };
template<class C, class D> static void keyed()
{
   { C a; D b; for (int i = SZ("n", NL + 1); i > 0; --i) { int k = vp_int("k"); A_(a.insert(k).second == b.insert(k).second, M); } int k = vp_int("probe");
   A_(a.erase(k) == b.erase(k), M); A_((a.find(k) == a.end()) == (b.find(k) == b.end()) && a.count(k) == b.count(k), M); k = vp_int("probe");
   typename C::iterator i = a.begin(), l = a.lower_bound(k), u = a.upper_bound(k), f = a.find(k); typename D::iterator j = b.begin(), m = b.lower_bound(k), v = b.upper_bound(k), g = b.find(k); bool ok = true;
   for (; i != a.end() && j != b.end(); ++i, ++j) { ok = ok & (*i == *j); ok = ok & ((i == l) == (j == m)) & ((i == u) == (j == v)) & ((i == f) == (j == g)); } A_(ok && i == a.end() && j == b.end(), M); }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(t_set) { if (vp_choice("cmp", 2)) keyed<ttl::set<int, KL>, ttl::set<int> >(); else keyed<ttl::set<int, KP>, ttl::set<int> >(); }
template<class C> struct Sm { C c; bool put(int k, int v) { return c.insert(typename C::value_type(k, v)).second; } };
template<class C, class D> static void assoc()
{
   { C a; D b; for (int i = SZ("n", NL + 1); i > 0; --i) { int k = vp_int("k"), v = vp_int("v"); A_(a.insert(typename C::value_type(k, v)).second == b.insert(typename D::value_type(k, v)).second, M); } int k = vp_int("probe"); a[k] = 5; b[k] = 5; k = vp_int("probe");
   A_((a.find(k) == a.end()) == (b.find(k) == b.end()) && a.count(k) == b.count(k), M);
   typename C::iterator i = a.begin(), l = a.lower_bound(k), u = a.upper_bound(k); typename D::iterator j = b.begin(), m = b.lower_bound(k), v = b.upper_bound(k); bool ok = true;
   for (; i != a.end() && j != b.end(); ++i, ++j) { ok = ok & (i->first == j->first) & (i->second == j->second); ok = ok & ((i == l) == (j == m)) & ((i == u) == (j == v)); } A_(ok && i == a.end() && j == b.end(), M); }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(t_map) { assoc<ttl::map<int, int, KL>, ttl::map<int, int> >(); }
VP_ENTRY(t_smap) { assoc<ttl::sorted_vector_map<int, int, KP>, ttl::sorted_vector_map<int, int> >(); }
