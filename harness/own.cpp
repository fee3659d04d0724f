// Keyed containers given references to their own keys and elements.
#include "common.h"
#ifndef NI
#define NI 4
#endif
#ifndef NS
#define NS 2
#endif
#define M "an own element as the argument counts with the value it had before the call"
static int key(int x) { return x; } static int key(const Trk &x) { return x.get(); }
template<class P> static int key(const P &p) { return p.first.get(); }
struct Keys { int a[NI + NS], v[NI + NS], n; Keys(): n(0) {} int find(int k) const { for (int i = 0; i < n; ++i) if (vp_concretize(a[i] == k)) return i; return -1; }
   bool put(int k, int x) { int i = 0; while (i < n && vp_concretize(a[i] < k)) ++i; if (i < n && vp_concretize(a[i] == k)) return false; for (int j = n++; j > i; --j) a[j] = a[j-1], v[j] = v[j-1]; a[i] = k; v[i] = x; return true; } void del(int i) { for (--n; i < n; ++i) a[i] = a[i+1], v[i] = v[i+1]; } };
template<class I> static I nth(I i, int k) { while (k-- > 0) ++i; return i; }
struct SetOf { typedef ttl::set<Trk> C; static C::value_type val(int k, int) { return k; } enum { erases = 1, index = 0 }; template<class I> static int second(I) { return 0; } };
struct MapOf { typedef ttl::map<Trk, Trk> C; static C::value_type val(int k, int v) { return C::value_type(k, v); } enum { erases = 1, index = 1 }; template<class I> static int second(I i) { return i->second.get(); } };
static const Trk &kref(const Trk &x) { return x; }
template<class P> static const Trk &kref(const P &p) { return p.first; }
template<class C> static Trk &sub(C &c, const Trk &k, int) { return c[k]; }
static Trk &sub(ttl::set<Trk> &c, const Trk &k, int) { static Trk *none; return *none; }
template<class F> static void tree()
{
   typedef typename F::C C; { C c; Keys r; int n = vp_choice("n", NI + 1);
   for (int i = 0; i < n; ++i) { int k = vp_int("k"), v = vp_int("v"); c.insert(F::val(k, v)); r.put(k, v); }
   for (int s = 0; s < NS && r.n; ++s) {
      int p = vp_choice("which", r.n); typename C::iterator i = nth(c.begin(), p); const C &cc = c;
      switch (vp_choice("op", F::index ? 4 : 3)) {
      case 0: A_(c.erase(kref(*i)) == 1, M); r.del(p); break;
      case 1: { ttl::pair<typename C::iterator, bool> q = c.insert(*i); A_(!q.second && q.first == i, M); break; }
      case 2: A_(c.find(kref(*i)) == i && cc.find(kref(*i)) == i && c.count(kref(*i)) == 1 && c.lower_bound(kref(*i)) == i && c.equal_range(kref(*i)).first == i, M); { typename C::iterator u = i; ++u; A_(c.upper_bound(kref(*i)) == u, M); } break;
      case 3: { int x = vp_int("x"); Trk &t = sub(c, kref(*i), 0); A_(vp_concretize(t.get() == r.v[p]), M); t = Trk(x); r.v[p] = x; break; }
      }
      int j = 0; for (typename C::const_iterator q = cc.begin(); q != cc.end() && j <= r.n; ++q, ++j) A_(j < r.n && vp_concretize((key(*q) == r.a[j]) & (!F::index | (F::second(q) == r.v[j]))), "the contents agree with the history"); A_(j == r.n, "the contents agree with the history");
   }
   if (r.n) { C d; d.insert(c.begin(), c.end()); d.insert(d.begin(), d.end()); int j = 0; for (typename C::iterator q = d.begin(); q != d.end(); ++q) ++j; A_(j == r.n, M); } }
   A_(vp_heap_live() == 0 && vp_live_objs() == 0, "all memory and elements released");
}
VP_ENTRY(own_set) { tree<SetOf>(); }
VP_ENTRY(own_map) { tree<MapOf>(); }
// vector maps: own keys as the key of lookups and as parts of new elements
template<class C> static void flat(bool sorted)
{
   { C c; Keys r; int n = vp_choice("n", NI + 1); for (int i = 0; i < n; ++i) { int k = vp_int("k"), v = vp_int("v"); c.insert(typename C::value_type(k, v)); if (sorted) r.put(k, v); else if (r.find(k) < 0) { r.a[r.n] = k; r.v[r.n++] = v; } }
   for (int s = 0; s < NS && r.n; ++s) {
      int p = vp_choice("which", r.n); typename C::iterator i = nth(c.begin(), p); const C &cc = c;
      switch (vp_choice("op", 4)) {
      case 0: { ttl::pair<typename C::iterator, bool> q = c.insert(*i); A_(!q.second && q.first == i, M); break; }
      case 1: A_(c.find(i->first) == i && cc.find(i->first) != cc.end() && c.count(i->first) == 1, M); break;
      case 2: { int x = vp_int("x"); Trk &t = c[i->first]; A_(vp_concretize(t.get() == r.v[p]), M); t = Trk(x); r.v[p] = x; break; }
      case 3: { int x = vp_int("x"); i->second = Trk(x); r.v[p] = x; Trk &t = c[i->second]; // the key is a value stored in the map itself
         int at = r.find(x); if (at < 0) { if (sorted) r.put(x, 0); else { r.a[r.n] = x; r.v[r.n++] = 0; } A_(t.get() == 0, M); } else A_(vp_concretize(t.get() == r.v[at]), M); break; }
      }
      int j = 0; for (typename C::const_iterator q = cc.begin(); q != cc.end() && j <= r.n; ++q, ++j) A_(j < r.n && vp_concretize((q->first.get() == r.a[j]) & (q->second.get() == r.v[j])), "the contents agree with the history"); A_(j == r.n, "the contents agree with the history");
   } }
   A_(vp_heap_live() == 0 && vp_live_objs() == 0, "all memory and elements released");
}
VP_ENTRY(own_vmap) { flat<ttl::vector_map<Trk, Trk> >(false); }
VP_ENTRY(own_smap) { flat<ttl::sorted_vector_map<Trk, Trk> >(true); }
