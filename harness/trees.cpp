// Ordered containers: set, map, rbtree.
#include "common.h"
#ifndef NK
#define NK 4      // symbolic insertions
#endif
#ifndef NE
#define NE 1      // symbolic removals
#endif
#ifndef NH
#define NH 4      // mixed history length
#endif
#ifndef BIG
#define BIG 11    // largest prebuilt tree
#endif
#ifndef NB
#define NB 1      // symbolic operations on a prebuilt tree
#endif
#ifndef PERM
#define PERM 6    // distinct keys inserted in every order
#endif
#ifndef NPAT
#define NPAT 4    // insertion patterns for prebuilt trees
#endif
#ifndef RLO
#define RLO 13    // shuffled trees: fewest keys
#endif
#ifndef RHI
#define RHI 16    // shuffled trees: most keys
#endif
#ifndef RS
#define RS 8      // shuffled trees: number of shuffles
#endif
#ifndef RE
#define RE 3      // shuffled trees: largest number of known removals, in thirds of the tree
#endif

// ---- reference model: keys (arbitrary symbolic values) with liveness and a value
struct Keys {
   int k[300]; int val[300]; bool live[300]; int n;
   Keys(): n(0) {}
   bool has(int x) const { bool r = false; for (int i = 0; i < n; ++i) if (live[i]) r = r | (k[i] == x); return r; }
   int size() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
   void add(int x, int v = 0) { k[n] = x; live[n] = true; val[n] = v; ++n; }
   void rem(int x) { for (int i = 0; i < n; ++i) if (live[i]) live[i] = vp_concretize(!(k[i] == x)); }
   void clear() { n = 0; }
   int valof(int x) const { int r = 0; for (int i = 0; i < n; ++i) if (live[i]) r = (k[i] == x) ? val[i] : r; return r; }
   void setval(int x, int v) { for (int i = 0; i < n; ++i) if (live[i]) val[i] = (k[i] == x) ? v : val[i]; }
   // number of live keys ordered before x, by value
   bool none_before(int x, bool rev) const { bool r = true; for (int i = 0; i < n; ++i) if (live[i]) r = r & !(rev ? k[i] > x : k[i] < x); return r; }
};
// comparison used by the container under test, seen from the model
template<class C> struct Rev { enum { v = 0 }; };
template<class T> struct Rev<ttl::greater<T> > { enum { v = 1 }; };
template<class C> static bool lt(int a, int b) { return Rev<C>::v ? a > b : a < b; }

// ---- adaptors so that set and map share one specification
struct SetA { typedef ttl::less<int> C; typedef ttl::set<int> T; static int key(const int &e) { return e; } static bool mapped(const int &, const Keys &) { return true; }
   static ttl::pair<T::iterator,bool> insert(T &s, int k, int) { return s.insert(k); } };
struct SetG { typedef ttl::greater<int> C; typedef ttl::set<int, C> T; static int key(const int &e) { return e; } static bool mapped(const int &, const Keys &) { return true; }
   static ttl::pair<T::iterator,bool> insert(T &s, int k, int) { return s.insert(k); } };
struct MapA { typedef ttl::less<int> C; typedef ttl::map<int,int> T; static int key(const T::value_type &e) { return e.first; }
   static bool mapped(const T::value_type &e, const Keys &m) { return e.second == m.valof(e.first); }
   static ttl::pair<T::iterator,bool> insert(T &s, int k, int v) { return s.insert(T::value_type(k, v)); } };
struct MapG { typedef ttl::greater<int> C; typedef ttl::map<int,int,C> T; static int key(const T::value_type &e) { return e.first; }
   static bool mapped(const T::value_type &e, const Keys &m) { return e.second == m.valof(e.first); }
   static ttl::pair<T::iterator,bool> insert(T &s, int k, int v) { return s.insert(T::value_type(k, v)); } };

template<class A> static void chk(const typename A::T &s, const Keys &m)
{
   int n = m.size(), c = 0; int last = 0;
   for (typename A::T::const_iterator i = s.begin(); i != s.end(); ++i) {
      A_(c < n, "no more elements than the history left");
      int x = A::key(*i);
      A_(m.has(x), "contains only keys inserted and not removed since");
      A_(A::mapped(*i, m), "mapped value is the one stored for the key");
      if (c) A_(lt<typename A::C>(last, x), "iteration is strictly increasing (each key once)");
      last = x; ++c; vp_observe(x);
   }
   A_(c == n, "contains every key inserted and not removed since");
   A_(s.empty() == (n == 0), "empty() agrees with the contents");
}
template<class A> static void chk_rev(typename A::T &s, const Keys &m)
{
   int n = m.size(), c = 0; int last = 0;
   typedef typename A::T T;
   const T &cs = s;
   {
      typename T::iterator i = s.end();
      while (i != s.begin()) {
         typename T::iterator was = i;
         if (c & 1) { typename T::iterator o = i--; A_(o == was, "post-decrement returns the old position"); }
         else --i;
         A_(i != s.end(), "walking back reaches an element");
         A_(c < n, "walking back visits no more than all elements");
         int x = A::key(*i);
         A_(m.has(x), "walking back visits only contained keys");
         if (c) A_(lt<typename A::C>(x, last), "walking back visits keys in decreasing order");
         typename T::iterator f = i; ++f; A_(f == was, "++ undoes --");
         last = x; ++c;
      }
      A_(c == n, "walking back visits every element");
   }
   c = 0;
   {
      typename T::const_iterator i = cs.cend();
      while (i != cs.cbegin()) {
         if (c & 1) i--; else --i;
         A_(c < n, "walking back (const) visits no more than all elements");
         int x = A::key(*i);
         if (c) A_(lt<typename A::C>(x, last), "walking back (const) is in decreasing order");
         last = x; ++c;
      }
      A_(c == n, "walking back (const) visits every element");
   }
   c = 0;
   for (typename T::iterator i = s.begin(); i != s.end(); ) {
      typename T::iterator was = i;
      if (c & 1) { typename T::iterator o = i++; A_(o == was, "post-increment returns the old position"); } else ++i;
      typename T::iterator b = i; --b; A_(b == was, "-- undoes ++");
      ++c; A_(c <= n, "walking forward terminates");
   }
   A_(c == n, "walking forward visits every element");
}
template<class A> static void ins(typename A::T &s, Keys &m, int k, int v = 0)
{
   ttl::pair<typename A::T::iterator,bool> r = A::insert(s, k, v);
   bool had = m.has(k);
   A_(r.second == !had, "insert reports whether the key was new");
   A_(A::key(*r.first) == k, "insert returns the position of the key");
   if (r.second) { m.add(k, v); vp_reach("insert new"); } else vp_reach("insert dup");
}
template<class A> static void era(typename A::T &s, Keys &m, int k)
{
   bool had = m.has(k);
   bool r = s.erase(k) != 0;
   A_(r == had, "erase reports whether the key was present");
   m.rem(k);
   if (r) vp_reach("erase present"); else vp_reach("erase absent");
}
// concrete insertion patterns for larger trees: the i-th of n distinct keys
static int pat(int p, int i, int n)
{
   int r;
   if (p == 0) r = i;                                   // ascending
   else if (p == 1) r = n - 1 - i;                      // descending
   else if (p == 2) r = (i & 1) ? n - 1 - i / 2 : i / 2;  // zigzag from both ends
   else if (p == 3) { int h = n / 2; r = (i & 1) ? h - 1 - i / 2 : h + i / 2; if (r < 0) r = n - 1; if (!(n & 1) || i < n - 1) { } }  // from the middle outwards
   else { int st = 7; while (n % st == 0) st += 2; r = (i * st + p) % n; }
   return r * 10;
}
static int pat_ok(int p, int i, int n) { return pat(p, i, n); }
template<class A> static void prebuild(typename A::T &s, Keys &m, int n, int p)
{
   for (int i = 0; i < n; ++i) { int k = pat_ok(p, i, n); if (m.has(k)) continue; A::insert(s, k, 1000 + i); m.add(k, 1000 + i); }
}

// shuffles: the keys 0, 10, ... in an arbitrary order fixed by a seed, and another order for removals
struct Shuffle {
   unsigned x; int o[64];
   Shuffle(unsigned seed, int n): x(seed * 2654435761u + 12345u) { for (int i = 0; i < n; ++i) o[i] = i; for (int i = n - 1; i > 0; --i) { int j = (int)(rnd() % (unsigned)(i + 1)), t = o[i]; o[i] = o[j]; o[j] = t; } }
   unsigned rnd() { x = x * 1103515245u + 12345u; return (x >> 16) & 0x7fff; }
};
template<class A> static void shuffled(typename A::T &s, Keys &m)
{
   int n = RLO + vp_choice("n", RHI - RLO + 1); unsigned seed = (unsigned)vp_choice("seed", RS);
   Shuffle a(seed * 3 + 1, n), b(seed * 5 + 2, n);
   for (int i = 0; i < n; ++i) { A::insert(s, a.o[i] * 10, 1000 + i); m.add(a.o[i] * 10, 1000 + i); }
   int r = vp_choice("removed", RE) * n / 3;
   for (int i = 0; i < r; ++i) { A_(s.erase(b.o[i] * 10) == 1, "erase removes a present key"); m.rem(b.o[i] * 10); }
}

// ---------------------------------------------------------------- P01
template<class A> static void ins_erase()
{
   { typename A::T s; Keys m;
   int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) ins<A>(s, m, vp_int("k"), i + 1);
   int e = vp_choice("e", NE + 1);
   for (int i = 0; i < e; ++i) era<A>(s, m, vp_int("e"));
   chk<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
template<class A> static void hist()
{
   { typename A::T s; Keys m;
   int n = vp_choice("n", NH + 1);
   for (int i = 0; i < n; ++i) {
      int op = vp_choice("op", 3);
      if (op == 0) ins<A>(s, m, vp_int("k"), i + 1);
      else if (op == 1) era<A>(s, m, vp_int("e"));
      else { s.clear(); m.clear(); vp_reach("clear"); A_(s.empty(), "clear leaves nothing"); }
      A_(s.empty() == (m.size() == 0), "empty() agrees along the history");
   }
   chk<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
template<class A> static void big()
{
   { typename A::T s; Keys m;
   int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   prebuild<A>(s, m, n, p);
   for (int i = 0; i < NB; ++i) {
      if (vp_choice("op", 2)) ins<A>(s, m, vp_int("k"), i + 1);
      else era<A>(s, m, vp_int("e"));
   }
   chk<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
template<class A> static void rnd_ops()   // a shuffled tree, then NB operations on arbitrary keys
{
   { typename A::T s; Keys m; shuffled<A>(s, m);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) ins<A>(s, m, vp_int("k"), i + 1); else era<A>(s, m, vp_int("e")); }
   chk<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
// n distinct keys in every order, then removals of arbitrary keys
template<class A> static void perm()
{
   { typename A::T s; Keys m;
   int n = PERM;
   for (int i = 0; i < n; ++i) { int k = vp_int("k"); vp_assume(!m.has(k)); ins<A>(s, m, k, i + 1); }
   for (int i = 0; i < NE; ++i) era<A>(s, m, vp_int("e"));
   chk<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
// insertion of ranges and from ranges
template<class A> struct RangeSrc;
template<> struct RangeSrc<SetA> { static int make(int k, int) { return k; } typedef int E; };
template<> struct RangeSrc<MapA> { typedef ttl::pair<int,int> E; static E make(int k, int v) { return E(k, v); } };
template<class A> static void range()
{
   { typedef typename RangeSrc<A>::E E;
   E src[4] = { RangeSrc<A>::make(0,0), RangeSrc<A>::make(0,0), RangeSrc<A>::make(0,0), RangeSrc<A>::make(0,0) };
   int n = vp_choice("n", 5); Keys m;
   for (int i = 0; i < n; ++i) src[i] = RangeSrc<A>::make(vp_int("k"), i + 1);
   if (vp_choice("ctor", 2)) {
      typename A::T s(src + 0, src + n);
      for (int i = 0; i < n; ++i) { int k = A::key(typename A::T::value_type(src[i])); if (vp_concretize(!m.has(k))) m.add(k, i + 1); }
      chk<A>(s, m); vp_reach("range ctor");
   } else {
      typename A::T s; int k0 = vp_int("k0"); ins<A>(s, m, k0, 77);
      s.insert(src + 0, src + n);
      for (int i = 0; i < n; ++i) { int k = A::key(typename A::T::value_type(src[i])); if (vp_concretize(!m.has(k))) m.add(k, i + 1); }
      chk<A>(s, m); vp_reach("range insert");
   } }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(set_ins_erase) { ins_erase<SetA>(); }
VP_ENTRY(setg_ins_erase) { ins_erase<SetG>(); }
VP_ENTRY(set_hist) { hist<SetA>(); }
VP_ENTRY(set_big) { big<SetA>(); }
VP_ENTRY(set_perm) { perm<SetA>(); }
VP_ENTRY(set_rnd) { rnd_ops<SetA>(); }
VP_ENTRY(map_rnd) { rnd_ops<MapG>(); }
VP_ENTRY(set_range) { range<SetA>(); }
VP_ENTRY(map_ins_erase) { ins_erase<MapA>(); }
VP_ENTRY(mapg_ins_erase) { ins_erase<MapG>(); }
VP_ENTRY(map_hist) { hist<MapA>(); }
VP_ENTRY(map_big) { big<MapA>(); }
VP_ENTRY(map_perm) { perm<MapA>(); }
VP_ENTRY(map_range) { range<MapA>(); }
// erase through a reference to the element's own key
VP_ENTRY(set_erase_own)
{
   { SetA::T s; Keys m; int n = vp_choice("n", NK) + 1;
   for (int i = 0; i < n; ++i) ins<SetA>(s, m, vp_int("k"));
   SetA::T::iterator it = s.begin(); int steps = vp_choice("pos", NK);
   for (int i = 0; i < steps && it != s.end(); ++i) ++it;
   if (it == s.end()) return;
   int v = *it; A_(s.erase(*it) == 1, "erase by the element's own key removes it"); m.rem(v);
   chk<SetA>(s, m); vp_reach("own"); }
}

// ---------------------------------------------------------------- P02
template<class A, class It> static void chk_bound(bool isend, int x, const Keys &m, int p, bool upper)
{
   typedef typename A::C C;
   if (isend) {
      bool ok = true;
      for (int i = 0; i < m.n; ++i) if (m.live[i]) ok = ok & (upper ? !lt<C>(p, m.k[i]) : lt<C>(m.k[i], p));
      A_(ok, upper ? "upper_bound is end only if no key is greater" : "lower_bound is end only if every key is less");
      vp_reach("bound end");
   } else {
      A_(m.has(x), "bound designates a contained key");
      A_(upper ? lt<C>(p, x) : !lt<C>(x, p), "bound is on the right side of the probe");
      bool ok = true;
      for (int i = 0; i < m.n; ++i) if (m.live[i]) ok = ok & !((upper ? lt<C>(p, m.k[i]) : !lt<C>(m.k[i], p)) & lt<C>(m.k[i], x));
      A_(ok, "bound is the first such key");
      vp_reach("bound inside");
   }
}
template<class A, class T, class It> static void lookups(T &s, const Keys &m, int p)
{
   It e = s.end();
   bool had = m.has(p);
   It f = s.find(p);
   if (f == e) { A_(!had, "find misses only absent keys"); vp_reach("find absent"); }
   else { A_(A::key(*f) == p, "find returns the probed key"); A_(had, "find returns contained keys only"); A_(A::mapped(*f, m), "find designates the stored value"); vp_reach("find present"); }
   A_(s.count(p) == (had ? 1u : 0u), "count is 1 for present and 0 for absent keys");
   It lo = s.lower_bound(p), up = s.upper_bound(p);
   chk_bound<A,It>(lo == e, lo == e ? 0 : A::key(*lo), m, p, false);
   chk_bound<A,It>(up == e, up == e ? 0 : A::key(*up), m, p, true);
   ttl::pair<It,It> er = s.equal_range(p);
   A_(er.first == lo, "equal_range starts at lower_bound");
   A_(er.second == up, "equal_range ends at upper_bound");
}
template<class A> static void lookup_both(typename A::T &s, const Keys &m, int p)
{
   if (vp_choice("const", 2)) lookups<A, const typename A::T, typename A::T::const_iterator>(s, m, p);
   else lookups<A, typename A::T, typename A::T::iterator>(s, m, p);
   chk<A>(s, m);
}
template<class A> static void look_small()
{
   typename A::T s; Keys m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) ins<A>(s, m, vp_int("k"), i + 1);
   int e = vp_choice("e", NE + 1);
   for (int i = 0; i < e; ++i) era<A>(s, m, vp_int("e"));
   lookup_both<A>(s, m, vp_int("probe"));
}
template<class A> static void look_big()
{
   typename A::T s; Keys m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   prebuild<A>(s, m, n, p);
   int e = vp_choice("e", NB + 1);
   for (int i = 0; i < e; ++i) era<A>(s, m, vp_int("e"));
   lookup_both<A>(s, m, vp_int("probe"));
}
template<class A> static void look_rnd() { typename A::T s; Keys m; shuffled<A>(s, m); lookup_both<A>(s, m, vp_int("probe")); }
VP_ENTRY(set_look_rnd) { look_rnd<SetA>(); }
VP_ENTRY(map_look_rnd) { look_rnd<MapG>(); }
VP_ENTRY(set_look) { look_small<SetA>(); }
VP_ENTRY(setg_look) { look_small<SetG>(); }
VP_ENTRY(map_look) { look_small<MapA>(); }
VP_ENTRY(mapg_look) { look_small<MapG>(); }
VP_ENTRY(set_look_big) { look_big<SetA>(); }
VP_ENTRY(map_look_big) { look_big<MapA>(); }

// ---------------------------------------------------------------- P03
template<class A> static void iter_small()
{
   typename A::T s; Keys m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) ins<A>(s, m, vp_int("k"), i + 1);
   int e = vp_choice("e", NE + 1);
   for (int i = 0; i < e; ++i) era<A>(s, m, vp_int("e"));
   chk<A>(s, m); chk_rev<A>(s, m);
}
template<class A> static void iter_big()
{
   typename A::T s; Keys m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   prebuild<A>(s, m, n, p);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) ins<A>(s, m, vp_int("k"), i + 1); else era<A>(s, m, vp_int("e")); }
   chk<A>(s, m); chk_rev<A>(s, m);
}
template<class A> static void iter_rnd()
{
   typename A::T s; Keys m; shuffled<A>(s, m);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) ins<A>(s, m, vp_int("k"), i + 1); else era<A>(s, m, vp_int("e")); }
   chk<A>(s, m); chk_rev<A>(s, m);
}
// iterators and references to elements survive operations on other keys
template<class A> static void stable_ops(typename A::T &s, Keys &m, int ops)
{
   typedef typename A::T T;
   const void *addr[200]; int key[200]; int c = 0;
   typename T::iterator *its[200];
   int idx[200];
   for (typename T::iterator i = s.begin(); i != s.end(); ++i) { addr[c] = &*i; key[c] = A::key(*i); its[c] = new typename T::iterator(i); idx[c] = -1;
      for (int j = 0; j < m.n; ++j) if (m.live[j] && vp_concretize(m.k[j] == key[c])) idx[c] = j;
      A_(idx[c] >= 0, "contains only keys of the history"); ++c; }
   for (int o = 0; o < ops; ++o) { if (vp_choice("op", 2)) ins<A>(s, m, vp_int("k"), 99); else era<A>(s, m, vp_int("e")); }
   for (int i = 0; i < c; ++i) {
      if (!m.live[idx[i]]) continue;   // removed (possibly inserted anew since)
      vp_reach("survivor");
      A_(*its[i] != s.end(), "iterator to a surviving element is not end");
      A_(&**its[i] == addr[i], "surviving element stays where it was");
      A_(A::key(**its[i]) == key[i], "surviving element keeps its key");
      A_(A::mapped(**its[i], m), "surviving element keeps its value");
      typename T::iterator f = s.find(key[i]);
      A_(f == *its[i], "find and the old iterator agree");
      typename T::iterator nx = *its[i]; ++nx;
      if (nx != s.end()) A_(lt<typename A::C>(key[i], A::key(*nx)) , "old iterator advances to a greater key");
   }
   for (int i = 0; i < c; ++i) delete its[i];
}
template<class A> static void stable_small()
{
   typename A::T s; Keys m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) ins<A>(s, m, vp_int("k"), i + 1);
   stable_ops<A>(s, m, 1);
}
template<class A> static void stable_big()
{
   typename A::T s; Keys m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   prebuild<A>(s, m, n, p);
   stable_ops<A>(s, m, NB);
}
template<class A> static void stable_rnd() { typename A::T s; Keys m; shuffled<A>(s, m); stable_ops<A>(s, m, NB); }
VP_ENTRY(set_iter_rnd) { iter_rnd<SetG>(); }
VP_ENTRY(map_iter_rnd) { iter_rnd<MapA>(); }
VP_ENTRY(set_stable_rnd) { stable_rnd<SetA>(); }
VP_ENTRY(map_stable_rnd) { stable_rnd<MapG>(); }
VP_ENTRY(set_iter) { iter_small<SetA>(); }
VP_ENTRY(map_iter) { iter_small<MapA>(); }
VP_ENTRY(setg_iter) { iter_small<SetG>(); }
VP_ENTRY(set_iter_big) { iter_big<SetA>(); }
VP_ENTRY(map_iter_big) { iter_big<MapA>(); }
VP_ENTRY(set_stable) { stable_small<SetA>(); }
VP_ENTRY(map_stable) { stable_small<MapA>(); }
VP_ENTRY(set_stable_big) { stable_big<SetA>(); }
VP_ENTRY(map_stable_big) { stable_big<MapA>(); }

// ---------------------------------------------------------------- P04
struct CK { int k; int id; CK(int k_ = 0, int i = -1): k(k_), id(i) {} };
static int g_seen[300], g_epoch = 1, g_nvis;
static void vis(const CK &c) { if (c.id >= 0 && g_seen[c.id] != g_epoch) { g_seen[c.id] = g_epoch; ++g_nvis; } }
static void vis_reset() { ++g_epoch; g_nvis = 0; }
static bool operator<(const CK &a, const CK &b) { vis(a); vis(b); return a.k < b.k; }
static bool operator>(const CK &a, const CK &b) { vis(a); vis(b); return a.k > b.k; }
static bool operator==(const CK &a, const CK &b) { vis(a); vis(b); return a.k == b.k; }
static bool operator!=(const CK &a, const CK &b) { return !(a == b); }
static int limit(int n) { // 2*log2(n+1), rounded up
   long sq = (long)(n + 1) * (n + 1); int r = 0; long p = 1; while (p < sq) { p *= 2; ++r; } return r; }
typedef ttl::set<CK> CSet;
struct CModel { int k[300]; bool live[300]; int n; CModel(): n(0) {}
   int size() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; } };
static void c_ins(CSet &s, CModel &m, int k)
{
   vis_reset(); int sz = m.size();
   bool fresh = s.insert(CK(k, m.n)).second;
   // the new element itself carries an id: one more than the visited nodes
   A_(g_nvis <= limit(sz) + 1, "inserting visits at most 2*log2(n+1) nodes");
   if (fresh) { m.k[m.n] = k; m.live[m.n] = true; ++m.n; }
}
static void c_era(CSet &s, CModel &m, int k)
{
   bool r = s.erase(CK(k)) != 0;
   if (r) vp_reach("balance: erased present"); else vp_reach("balance: erased absent");
   if (r) for (int i = 0; i < m.n; ++i) if (m.live[i]) m.live[i] = vp_concretize(!(m.k[i] == k));
}
static void c_chk(const CSet &s, const CModel &m)
{
   int sz = m.size(), lim = limit(sz);
   for (int i = 0; i < m.n; ++i) if (m.live[i]) {
      vis_reset(); CSet::const_iterator f = s.find(CK(m.k[i]));
      A_(f != s.end(), "the key is found");
      A_(g_nvis <= lim, "finding a present key visits at most 2*log2(n+1) nodes");
      vis_reset(); s.lower_bound(CK(m.k[i])); A_(g_nvis <= lim, "locating a key visits at most 2*log2(n+1) nodes");
   }
}
static int depth_max(const CSet &s, const CModel &m)   // deepest search over all keys, from outside
{
   int d = 0; for (int i = 0; i < m.n; ++i) if (m.live[i]) { vis_reset(); s.find(CK(m.k[i])); if (g_nvis > d) d = g_nvis; } return d;
}
static void c_prebuild(CSet &s, CModel &m, int n, int p)
{
   bool used[300]; for (int i = 0; i < n; ++i) used[i] = false;
   for (int i = 0; i < n; ++i) { int k = pat_ok(p, i, n); if (used[k/10]) continue; used[k/10] = true; c_ins(s, m, k); }
}
VP_ENTRY(bal_perm)    // any order of PERM distinct keys, then NE removals of any (present or absent) keys
{
   CSet s; CModel m;
   for (int i = 0; i < PERM; ++i) { int k = vp_int("k"); bool dup = false; for (int j = 0; j < m.n; ++j) dup = dup | (m.k[j] == k); vp_assume(!dup); c_ins(s, m, k); }
   for (int i = 0; i < NE; ++i) c_era(s, m, vp_int("e"));
   c_chk(s, m);
}
VP_ENTRY(bal_big)     // larger trees, then NB operations on arbitrary keys, then a probe by any key
{
   CSet s; CModel m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   c_prebuild(s, m, n, p);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) c_ins(s, m, vp_int("k")); else c_era(s, m, vp_int("e")); }
   c_chk(s, m);
   vis_reset(); int q = vp_int("probe"); s.upper_bound(CK(q)); A_(g_nvis <= limit(m.size()) , "locating any key visits at most 2*log2(n+1) nodes");
}
VP_ENTRY(bal_rnd)     // shuffled trees thinned out by known removals, then NB operations on arbitrary keys
{
   CSet s; CModel m; int n = RLO + vp_choice("n", RHI - RLO + 1); unsigned seed = (unsigned)vp_choice("seed", RS);
   Shuffle a(seed * 3 + 1, n), b(seed * 5 + 2, n);
   for (int i = 0; i < n; ++i) c_ins(s, m, a.o[i] * 10);
   int r = vp_choice("removed", RE) * n / 3;
   for (int i = 0; i < r; ++i) c_era(s, m, b.o[i] * 10);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) c_ins(s, m, vp_int("k")); else c_era(s, m, vp_int("e")); }
   c_chk(s, m);
}
typedef ttl::map<CK, int> CMap;
static void cm_visit(CMap &s, const CModel &m, int q)
{
   int lim = limit(m.size()); const CMap &cs = s;
   vis_reset(); s.find(CK(q)); A_(g_nvis <= lim, "map find visits at most 2*log2(n+1) nodes");
   vis_reset(); cs.find(CK(q)); A_(g_nvis <= lim, "const map find visits at most 2*log2(n+1) nodes");
   vis_reset(); s.lower_bound(CK(q)); A_(g_nvis <= lim, "map lower_bound visits at most 2*log2(n+1) nodes");
   vis_reset(); s.upper_bound(CK(q)); A_(g_nvis <= lim, "map upper_bound visits at most 2*log2(n+1) nodes");
   vis_reset(); cs.lower_bound(CK(q)); A_(g_nvis <= lim, "const map lower_bound visits at most 2*log2(n+1) nodes");
   vis_reset(); cs.upper_bound(CK(q)); A_(g_nvis <= lim, "const map upper_bound visits at most 2*log2(n+1) nodes");
   vis_reset(); cs.count(CK(q)); A_(g_nvis <= lim + 1, "map count visits at most 2*log2(n+1) nodes and the next");
   vis_reset(); s.equal_range(CK(q)); A_(g_nvis <= 2 * lim, "map equal_range visits at most two paths");
   bool had = false; for (int i = 0; i < m.n; ++i) if (m.live[i]) had = had | (m.k[i] == q);
   if (vp_concretize(had)) {
      vis_reset(); s.at(CK(q)); A_(g_nvis <= lim, "map at visits at most 2*log2(n+1) nodes");
      vis_reset(); s[CK(q)] = 1; A_(g_nvis <= lim, "map subscript of a present key visits at most 2*log2(n+1) nodes"); vp_reach("map visit present");
   } else { vis_reset(); s[CK(q)] = 1; A_(g_nvis <= 2 * lim, "map subscript of an absent key visits at most two paths"); vp_reach("map visit absent"); }
}
VP_ENTRY(bal_map)     // lookups of a map with any key
{
   CMap s; CModel m; int n = RLO + vp_choice("n", RHI - RLO + 1); unsigned seed = (unsigned)vp_choice("seed", RS);
   Shuffle a(seed * 3 + 1, n), b(seed * 5 + 2, n);
   for (int i = 0; i < n; ++i) { vis_reset(); s.insert(CMap::value_type(CK(a.o[i] * 10, i), i)); A_(g_nvis <= limit(i) + 1, "inserting visits at most 2*log2(n+1) nodes"); m.k[i] = a.o[i] * 10; m.live[i] = true; ++m.n; }
   int r = vp_choice("removed", RE) * n / 3;
   for (int i = 0; i < r; ++i) { int k = b.o[i] * 10; A_(s.erase(CK(k)) == 1, "erase removes a present key"); for (int j = 0; j < n; ++j) if (m.k[j] == k) m.live[j] = false; }
   cm_visit(s, m, vp_int("probe"));
}
VP_ENTRY(bal_drain)   // grow to BIG, remove all but a few in some order, with removals of an absent key interspersed
{
   CSet s; CModel m; int p = vp_choice("pattern", NPAT), q = vp_choice("order", NPAT), ab = vp_choice("absent", 3);
   int n = BIG; c_prebuild(s, m, n, p);
   int miss = vp_int("miss"); bool hit = false; for (int i = 0; i < m.n; ++i) hit = hit | (m.k[i] == miss); vp_assume(!hit);
   int stop = vp_choice("stop", n + 1);
   for (int i = 0; i < stop; ++i) {
      if (ab == 2 || (ab == 1 && (i & 1))) c_era(s, m, miss);
      int k = pat_ok(q, i, n); c_era(s, m, k);
   }
   c_chk(s, m);
   // and the drained tree still grows in a balanced way
   for (int i = 0; i < 4; ++i) c_ins(s, m, 1000 + i);
   c_chk(s, m);
}
VP_ENTRY(bal_absent)  // removals of absent keys alone never degrade the tree
{
   CSet s; CModel m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   c_prebuild(s, m, n, p);
   for (int i = 0; i < NB; ++i) { int x = vp_int("x"); bool hit = false; for (int j = 0; j < m.n; ++j) hit = hit | (m.k[j] == x); vp_assume(!hit); A_(s.erase(CK(x)) == 0, "nothing removed");
      c_chk(s, m); }
   for (int i = 0; i < 3; ++i) c_ins(s, m, -1 - i);
   c_chk(s, m);
}
#ifndef NCH
#define NCH 24
#endif
VP_ENTRY(bal_churn)   // long churn: remove one key (symbolic) and insert one, many times
{
   CSet s; CModel m; int n = vp_choice("n", BIG) + 1, p = vp_choice("pattern", 2), dir = vp_choice("dir", 2);
   c_prebuild(s, m, n, p);
   int miss = vp_int("miss"); vp_assume(miss > 100000); 
   for (int i = 0; i < NCH; ++i) {
      int lo = 0, lok = 0; bool any = false;
      for (int j = 0; j < m.n; ++j) if (m.live[j]) { if (!any || (dir ? m.k[j] > lok : m.k[j] < lok)) { lo = j; lok = m.k[j]; any = true; } }
      c_era(s, m, m.k[lo]); if (i % 3 == 0) c_era(s, m, miss);
      c_ins(s, m, dir ? -10 * (i + 1) : 10 * (n + i));
   }
   c_chk(s, m);
}

// ---------------------------------------------------------------- P05: duplicates
struct DE { int k; int id; DE(int k_, int i): k(k_), id(i) {} };
struct DKey { const int &operator()(const DE &e) const { return e.k; } };
typedef ttl::rbtree<int, DE, DKey, ttl::less<int> > MTree;
struct DModel { int k[200]; int id[200]; bool live[200]; int n; DModel(): n(0) {}
   int size() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
   int cnt(int x) const { int c = 0; for (int i = 0; i < n; ++i) if (live[i]) c += (k[i] == x) ? 1 : 0; return c; } };
static MTree::node *nx(MTree::node *n) { return static_cast<MTree::node *>(ttl::rbtree_base::next_node(n)); }
static MTree::node *first(MTree &t) { return t.get_root() ? static_cast<MTree::node *>(ttl::rbtree_base::min_node(t.get_root())) : t.end(); }
static void m_ins(MTree &t, DModel &m, int k) { MTree::node *n = t.insert_equal(DE(k, m.n)); A_(n->data.k == k && n->data.id == m.n, "insert_equal returns the new element"); m.k[m.n] = k; m.id[m.n] = m.n; m.live[m.n] = true; ++m.n; }
static bool m_rem(MTree &t, DModel &m, int k)
{
   bool had = m.cnt(k) != 0;
   MTree::node *d = t.remove(k);
   A_((d != 0) == had, "remove takes out an element exactly if one has the key");
   if (d) {
      A_(d->data.k == k, "remove takes out an element with the key");
      int id = d->data.id; A_(id >= 0 && id < m.n && m.live[id], "the element removed was in the tree");
      m.live[id] = false; delete d; vp_reach("dup remove present");
   } else vp_reach("dup remove absent");
   return d != 0;
}
static void m_chk(MTree &t, const DModel &m)
{
   int n = m.size(), c = 0; int lk = 0, lid = -1; bool seen[200]; for (int i = 0; i < m.n; ++i) seen[i] = false;
   for (MTree::node *i = first(t); i != t.end(); i = nx(i)) {
      A_(c < n, "no more elements than inserted and not removed");
      int id = i->data.id; A_(id >= 0 && id < m.n && m.live[id] && !seen[id], "each element appears once"); seen[id] = true;
      A_(i->data.k == m.k[id], "elements keep their key");
      if (c) { A_(lk <= i->data.k, "iteration is in non-decreasing key order"); A_((lk != i->data.k) | (lid < id), "equal keys stay in insertion order"); }
      lk = i->data.k; lid = id; ++c; vp_observe(id);
   }
   A_(c == n, "no element is lost");
   // and backwards
   if (n) { c = 0; ttl::rbnode *i = ttl::rbtree_base::max_node(t.get_root()); ttl::rbnode *b = first(t);
      for (;;) { ++c; A_(c <= n, "walking back terminates"); if (i == b) break; i = ttl::rbtree_base::prev_node(i); }
      A_(c == n, "walking back visits every element"); }
}
static void m_look(MTree &t, const DModel &m, int p)
{
   int want = m.cnt(p);
   A_((int)t.count(p) == want, "count covers exactly the elements equal to the probe");
   MTree::node *lo = t.lower_bound(p), *up = t.upper_bound(p);
   ttl::pair<MTree::node*, MTree::node*> r = t.equal_range(p);
   A_(r.first == lo && r.second == up, "equal_range is lower_bound..upper_bound");
   const MTree &ct = t; A_(ct.lower_bound(p) == lo && ct.upper_bound(p) == up, "const lookups agree");
   ttl::pair<const MTree::node*, const MTree::node*> cr = ct.equal_range(p); A_(cr.first == lo && cr.second == up, "const equal_range agrees");
   int st = 0, c = 0;   // 0 before, 1 in range, 2 after
   for (MTree::node *i = first(t); ; i = nx(i)) {
      if (st == 0 && i == lo) st = 1;
      if (st == 1 && i == up) st = 2;
      if (i == t.end()) break;
      if (st == 0) A_(i->data.k < p, "elements before lower_bound are less");
      else if (st == 1) { A_(i->data.k == p, "elements between the bounds are equal"); ++c; }
      else A_(p < i->data.k, "elements from upper_bound on are greater");
   }
   A_(st == 2, "both bounds are positions of the tree");
   A_(c == want, "the bounds cover all equal elements");
   MTree::node *f = t.find(p);
   if (f == t.end()) { A_(want == 0, "find misses only absent keys"); } else A_(f->data.k == p, "find returns an element with the key");
}
VP_ENTRY(dup_small)
{
   { MTree t; DModel m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) m_ins(t, m, vp_int("k"));
   int e = vp_choice("e", NE + 1); for (int i = 0; i < e; ++i) m_rem(t, m, vp_int("e"));
   m_chk(t, m); m_look(t, m, vp_int("probe")); }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(dup_big)     // few distinct keys, many duplicates
{
   { MTree t; DModel m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT), g = vp_choice("distinct", 3);
   for (int i = 0; i < n; ++i) { int k = pat_ok(p, i, n) / 10; m_ins(t, m, g == 0 ? 5 : g == 1 ? (k & 1) * 10 : (k / 3) * 10); }
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) m_ins(t, m, vp_int("k")); else m_rem(t, m, vp_int("e")); }
   m_chk(t, m); m_look(t, m, vp_int("probe")); }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(dup_drain)   // all copies of one key are removed one by one
{
   { MTree t; DModel m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   for (int i = 0; i < n; ++i) { int k = pat_ok(p, i, n) / 10; m_ins(t, m, (k % 3) * 10); }
   int x = vp_int("x"); int c = m.cnt(x); int done = 0;
   while (m_rem(t, m, x)) { ++done; m_chk(t, m); A_(done <= n, "draining terminates"); }
   A_(done == c, "every copy was removed, one at a time");
   m_chk(t, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(dup_delmin)  // taking the smallest element repeatedly through unique/equal mix and assign
{
   { MTree t; DModel m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) { int k = vp_int("k");
      if (vp_choice("uniq", 2)) { bool had = m.cnt(k) != 0; ttl::pair<MTree::node*, bool> r = t.insert_unique(DE(k, m.n)); A_(r.second == !had, "insert_unique reports whether the key was new"); A_(r.first->data.k == k, "insert_unique returns an element with the key");
         if (r.second) { m.k[m.n] = k; m.id[m.n] = m.n; m.live[m.n] = true; ++m.n; } }
      else m_ins(t, m, k); }
   MTree u; u.assign(t); m_chk(u, m); m_look(u, m, vp_int("probe"));
   if (m.size()) { int k = first(t)->data.k; m_rem(t, m, k); }
   m_chk(t, m); t.clear(); A_(first(t) == t.end(), "clear empties the tree"); }
   A_(vp_heap_live() == 0, "all memory released");
}

VP_ENTRY(dup_multi)   // shuffled keys with known repetitions, thinned out, then NB operations and a probe by arbitrary keys
{
   { MTree t; DModel m; int n = RLO + vp_choice("n", RHI - RLO + 1), g = 2 + 2 * vp_choice("distinct", 3); unsigned seed = (unsigned)vp_choice("seed", RS);
   Shuffle a(seed * 3 + 1, n), b(seed * 5 + 2, n);
   for (int i = 0; i < n; ++i) m_ins(t, m, (int)(a.rnd() % (unsigned)g) * 10);
   int r = vp_choice("removed", RE) * n / 3;
   for (int i = 0; i < r; ++i) m_rem(t, m, (int)(b.rnd() % (unsigned)g) * 10);
   for (int i = 0; i < NB; ++i) { if (vp_choice("op", 2)) m_ins(t, m, vp_int("k")); else m_rem(t, m, vp_int("e")); }
   m_chk(t, m); m_look(t, m, vp_int("probe")); }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(dup_rnd)     // a shuffled tree of arbitrary keys: neighbours may be equal wherever that is consistent with the insertion order
{
   { MTree t; int n = RLO + vp_choice("n", RHI - RLO + 1); unsigned seed = (unsigned)vp_choice("seed", RS);
   Shuffle a(seed * 3 + 1, n); int at[64], key[64];
   for (int i = 0; i < n; ++i) at[a.o[i]] = i;
   for (int r = 0; r < n; ++r) { key[r] = vp_int("k"); if (r) { if (at[r - 1] < at[r]) vp_assume(key[r - 1] <= key[r]); else vp_assume(key[r - 1] < key[r]); } }
   for (int i = 0; i < n; ++i) { MTree::node *x = t.insert_equal(DE(key[a.o[i]], a.o[i])); A_(x->data.id == a.o[i], "insert_equal returns the new element"); }
   { int c = 0; for (MTree::node *i = first(t); i != t.end(); i = nx(i)) { A_(c < n && i->data.id == c, "elements are in key order, equal keys in insertion order"); ++c; } A_(c == n, "no element is lost"); }
   int p = vp_int("probe");
   MTree::node *lo = t.lower_bound(p), *up = t.upper_bound(p); const MTree &ct = t;
   int l = lo == t.end() ? n : lo->data.id, u = up == t.end() ? n : up->data.id;
   A_(l >= 0 && l <= u && u <= n, "the bounds are positions in order");
   if (l > 0) A_(key[l - 1] < p, "elements before lower_bound are less");
   if (l < n) A_(!(key[l] < p), "lower_bound is not less than the probe");
   if (u > 0) A_(!(p < key[u - 1]), "elements before upper_bound are not greater");
   if (u < n) A_(p < key[u], "upper_bound is greater than the probe");
   A_((int)t.count(p) == u - l, "count covers exactly the elements equal to the probe");
   ttl::pair<MTree::node*, MTree::node*> r = t.equal_range(p); A_(r.first == lo && r.second == up, "equal_range is lower_bound..upper_bound");
   ttl::pair<const MTree::node*, const MTree::node*> cr = ct.equal_range(p); A_(cr.first == lo && cr.second == up, "const equal_range agrees");
   A_(ct.lower_bound(p) == lo && ct.upper_bound(p) == up, "const lookups agree");
   MTree::node *f = t.find(p); const MTree::node *cf = ct.find(p);
   if (u == l) { A_(f == t.end() && cf == ct.end(), "an absent key is not found"); vp_reach("dup probe absent"); }
   else { A_(f != t.end() && cf != ct.end(), "a present key is found"); A_(f->data.k == p && cf->data.k == p, "find returns an element with the key"); if (u - l > 1) vp_reach("dup probe several"); }
   MTree::node *d = t.remove(p); A_((d != 0) == (u != l), "remove takes out an element exactly if one has the key");
   int gone = -1; if (d) { gone = d->data.id; A_(gone >= l && gone < u, "remove takes out an element with the key"); delete d; }
   { int c = 0; for (MTree::node *i = first(t); i != t.end(); i = nx(i)) { if (c == gone) ++c; A_(c < n && i->data.id == c, "the others stay in order"); ++c; } if (c == gone) ++c; A_(c == n, "no other element is lost"); } }
   A_(vp_heap_live() == 0, "all memory released");
}

// ---------------------------------------------------------------- P06: copies
template<class A> static void copies(typename A::T &s, Keys &m)
{
   typedef typename A::T T;
   int how = vp_choice("how", 3);
   Keys m2 = m;
   if (how == 0) {
      T c(s); chk<A>(c, m); chk<A>(s, m); vp_reach("copy ctor");
      int k = vp_int("k2");
      if (vp_choice("which", 2)) { if (vp_choice("op", 2)) ins<A>(s, m, k, 50); else era<A>(s, m, k); }
      else { if (vp_choice("op", 2)) ins<A>(c, m2, k, 50); else era<A>(c, m2, k); }
      chk<A>(c, m2); chk<A>(s, m); chk_rev<A>(c, m2);
      A_(c.count(k) == (m2.has(k) ? 1u : 0u), "copy answers lookups for itself");
   } else if (how == 1) {
      T c; Keys old; int t = vp_choice("target", 3); for (int i = 0; i < t; ++i) ins<A>(c, old, vp_int("t"), 7);
      T &r = (c = s); A_(&r == &c, "assignment returns the target"); vp_reach("assign");
      chk<A>(c, m2); chk<A>(s, m);
      int k = vp_int("k2"); if (vp_choice("op", 2)) ins<A>(c, m2, k, 50); else era<A>(c, m2, k);
      chk<A>(c, m2); chk<A>(s, m);
      s.clear(); chk<A>(c, m2); m.clear(); chk<A>(s, m);
   } else {
      T &alias = s; s = alias; vp_reach("self assign");
      chk<A>(s, m); int k = vp_int("k2"); if (vp_choice("op", 2)) ins<A>(s, m, k, 50); else era<A>(s, m, k);
      chk<A>(s, m);
   }
}
template<class A> static void copy_small()
{
   { typename A::T s; Keys m; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) ins<A>(s, m, vp_int("k"), i + 1);
   int e = vp_choice("e", NE + 1); for (int i = 0; i < e; ++i) era<A>(s, m, vp_int("e"));
   copies<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
template<class A> static void copy_big()
{
   { typename A::T s; Keys m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   prebuild<A>(s, m, n, p); copies<A>(s, m); }
   A_(vp_heap_live() == 0, "all memory released");
}
template<class A> static void copy_rnd() { { typename A::T s; Keys m; shuffled<A>(s, m); copies<A>(s, m); } A_(vp_heap_live() == 0, "all memory released"); }
VP_ENTRY(set_copy_rnd) { copy_rnd<SetG>(); }
VP_ENTRY(map_copy_rnd) { copy_rnd<MapA>(); }
VP_ENTRY(set_copy) { copy_small<SetA>(); }
VP_ENTRY(map_copy) { copy_small<MapA>(); }
VP_ENTRY(set_copy_big) { copy_big<SetA>(); }
VP_ENTRY(map_copy_big) { copy_big<MapA>(); }
VP_ENTRY(tree_assign)
{
   { MTree t, u; DModel m, mu; int n = vp_choice("n", NK + 1);
   for (int i = 0; i < n; ++i) m_ins(t, m, vp_int("k"));
   int z = vp_choice("target", 3); for (int i = 0; i < z; ++i) m_ins(u, mu, vp_int("t"));
   if (vp_choice("self", 2)) { MTree &al = t; t.assign(al); m_chk(t, m); }
   else { u.assign(t); m_chk(u, m); m_chk(t, m); DModel m2 = m; m_rem(u, m2, vp_int("e")); m_chk(u, m2); m_chk(t, m); m_ins(t, m, vp_int("k2")); m_chk(u, m2); m_chk(t, m); } }
   A_(vp_heap_live() == 0, "all memory released");
}

// ---------------------------------------------------------------- P07: map values
template<class A> static void map_op(typename A::T &s, Keys &m, int i)
{
   typedef typename A::T Map;
   switch (vp_choice("op", 5)) {
   case 0: { int k = vp_int("k"), v = vp_int("v"); bool had = m.has(k); int old = m.valof(k);
      ttl::pair<typename Map::iterator,bool> r = s.insert(typename Map::value_type(k, v)); A_(r.second == !had, "insert reports whether the key was new");
      A_(r.first->first == k, "insert designates the key");
      if (r.second) { m.add(k, v); A_(r.first->second == v, "a new key gets the inserted value"); vp_reach("map insert new"); }
      else { A_(r.first->second == old, "inserting an existing key keeps its value"); vp_reach("map insert dup"); } break; }
   case 1: { int k = vp_int("k"), v = vp_int("v"); s[k] = v; if (vp_concretize(m.has(k))) { m.setval(k, v); vp_reach("subscript present"); } else { m.add(k, v); vp_reach("subscript absent"); } break; }
   case 2: { int k = vp_int("k"); int v = s[k]; if (vp_concretize(m.has(k))) A_(v == m.valof(k), "subscript reads the stored value"); else { A_(v == 0, "subscript on an absent key yields a default value"); m.add(k, 0); } break; }
   case 3: { int k = vp_int("k"); bool r = s.erase(k) != 0; A_(r == m.has(k), "erase reports"); m.rem(k); break; }
   case 4: { int k = vp_int("k"), v = vp_int("v"); typename Map::iterator it = s.find(k); if (it != s.end()) { A_(it->second == m.valof(k), "find designates the stored value"); it->second = v; m.setval(k, v); vp_reach("write through find"); }
      if (vp_concretize(m.has(k))) { int w = vp_int("w"); s.at(k) = w; m.setval(k, w); } break; }
   }
}
template<class A> static void map_final(typename A::T &s, const Keys &m)
{
   typedef typename A::T Map;
   chk<A>(s, m);
   const Map &cs = s;
   for (int i = 0; i < m.n; ++i) if (m.live[i]) { A_(s.at(m.k[i]) == m.valof(m.k[i]), "at reads the stored value"); A_(cs.at(m.k[i]) == m.valof(m.k[i]), "at (const) reads the stored value"); A_(cs.find(m.k[i])->second == m.valof(m.k[i]), "find reads the stored value"); A_(s[m.k[i]] == m.valof(m.k[i]), "subscript reads the stored value"); }
   chk<A>(s, m);
}
template<class A> static void map_values_small() { typename A::T s; Keys m; int n = vp_choice("n", NH + 1); for (int i = 0; i < n; ++i) map_op<A>(s, m, i); map_final<A>(s, m); }
template<class A> static void map_values_large()
{
   typename A::T s; Keys m; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT); prebuild<A>(s, m, n, p);
   for (int i = 0; i < NB; ++i) map_op<A>(s, m, i);
   map_final<A>(s, m);
}
template<class A> static void map_values_shuffled() { typename A::T s; Keys m; shuffled<A>(s, m); for (int i = 0; i < NB; ++i) map_op<A>(s, m, i); map_final<A>(s, m); }
VP_ENTRY(map_values) { map_values_small<MapA>(); }
VP_ENTRY(mapg_values) { map_values_small<MapG>(); }
VP_ENTRY(map_values_big) { map_values_large<MapA>(); }
VP_ENTRY(mapg_values_big) { map_values_large<MapG>(); }
VP_ENTRY(map_values_rnd) { map_values_shuffled<MapA>(); }

// ---------------------------------------------------------------- P27 (trees): lifetimes
typedef ttl::set<Trk> TSet; typedef ttl::map<Trk,Trk> TMap;
static void tset_dump(const TSet &s) { int c = 0; for (TSet::const_iterator i = s.begin(); i != s.end(); ++i) { vp_observe(i->get()); ++c; } (void)c; }
VP_ENTRY(life_set)
{
   { TSet s; int n = vp_choice("n", NH + 1);
   for (int i = 0; i < n; ++i) {
      int op = vp_choice("op", 5);
      if (op == 0) s.insert(Trk(vp_int("k"))); else if (op == 1) s.erase(Trk(vp_int("e"))); else if (op == 2) s.clear();
      else if (op == 3) { TSet c(s); c.insert(Trk(vp_int("k"))); tset_dump(c); s = c; } else { TSet::iterator it = s.find(Trk(vp_int("f"))); if (it != s.end()) vp_observe(it->get()); }
      int sz = 0; for (TSet::const_iterator j = s.begin(); j != s.end(); ++j) ++sz;
      A_(vp_live_objs() == sz, "exactly the contained elements are alive"); A_(vp_heap_live() == sz, "exactly one node per element");
   }
   tset_dump(s); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(life_map)
{
   { TMap s; int n = vp_choice("n", NH + 1);
   for (int i = 0; i < n; ++i) {
      int op = vp_choice("op", 5);
      if (op == 0) s.insert(TMap::value_type(Trk(vp_int("k")), Trk(i))); else if (op == 1) s.erase(Trk(vp_int("e"))); else if (op == 2) s.clear();
      else if (op == 3) { TMap c(s); c.erase(Trk(vp_int("k"))); s = c; } else s[Trk(vp_int("f"))] = Trk(i);
      int sz = 0; for (TMap::const_iterator j = s.begin(); j != s.end(); ++j) { vp_observe(j->second.get()); ++sz; }
      A_(vp_live_objs() == 2 * sz, "exactly the contained pairs are alive"); A_(vp_heap_live() == sz, "exactly one node per element");
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(life_set_big)
{
   { TSet s; int n = SZ("n", BIG + 1), p = vp_choice("pattern", NPAT);
   for (int i = 0; i < n; ++i) s.insert(Trk(pat_ok(p, i, n)));
   for (int i = 0; i < NB; ++i) s.erase(Trk(vp_int("e")));
   tset_dump(s);
   if (vp_choice("copy", 2)) { TSet c(s); A_(vp_heap_live() > 0 || n <= NB, "copy allocates"); c = s; c.erase(Trk(vp_int("e2"))); tset_dump(c); tset_dump(s); } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}

// ---------------------------------------------------------------- P30: equality of sets and maps
template<class A> static void tree_equality()
{
   { typename A::T a, b; Keys ma, mb; int na = vp_choice("na", NK + 1), nb = vp_choice("nb", NK + 1);
   for (int i = 0; i < na; ++i) ins<A>(a, ma, vp_int("a"), vp_int("va"));
   for (int i = 0; i < nb; ++i) ins<A>(b, mb, vp_int("b"), vp_int("vb"));
   if (vp_choice("erase", 2) && ma.size()) era<A>(a, ma, ma.k[0]);
   bool g = a == b, e = ma.size() == mb.size();
   if (e) for (int i = 0; i < ma.n; ++i) if (ma.live[i]) e = e & mb.has(ma.k[i]) & (!A::MAP | (mb.valof(ma.k[i]) == ma.val[i]));
   A_(g == e, "equal exactly if both hold the same elements"); A_((b == a) == g, "equality is symmetric"); A_((a != b) == !g, "inequality is the negation");
   A_(a == a && !(a != a), "a container equals itself"); typename A::T c(a); A_(c == a, "a copy is equal");
   if (e) vp_reach("trees equal"); else vp_reach("trees differ"); }
   A_(vp_heap_live() == 0, "all memory released");
}
struct SetE : SetA { enum { MAP = 0 }; };
struct MapE : MapA { enum { MAP = 1 }; };
struct MapGE : MapG { enum { MAP = 1 }; };
VP_ENTRY(set_equal) { tree_equality<SetE>(); }
VP_ENTRY(map_equal) { tree_equality<MapE>(); }
VP_ENTRY(mapg_equal) { tree_equality<MapGE>(); }
