// Ranges, values and containers whose element types differ: the operators of the types given decide.
#include "common.h"
#ifndef NL
#define NL 4
#endif
#ifndef NS
#define NS 2
#endif
static bool Q(bool b) { return vp_concretize(b); }
template<class T> static T any(const char *n) { return sizeof(T) == 1 ? (T)vp_u8(n) : sizeof(T) == 8 ? (T)vp_u64(n) : (T)vp_u32(n); }
template<class T> struct Rng {
   T *a; int n; T o[130]; Rng(int k, const char *nm): a(new T[k]), n(k) { for (int i = 0; i < n; ++i) a[i] = o[i] = any<T>(nm); } ~Rng() { delete [] a; }
   void sort() { for (int i = 1; i < n; ++i) vp_assume(o[i-1] <= o[i]); }
   T *b() const { return a; } T *e() const { return a + n; } const T *cb() const { return a; } const T *ce() const { return a + n; }
   void same() const { bool r = true; for (int i = 0; i < n; ++i) r = r & (a[i] == o[i]); A_(r, "the source range is not modified"); }
};
struct Low { bool operator()(long a, long b) const { return (a & 7) == (b & 7); } };
template<class E, class V> static void search()
{
   Rng<E> r(SZ("n", NL + 1), "x"); V v = any<V>("v"); int i = 0;
   switch (vp_choice("op", 8)) {
   case 0: { const E *g = ttl::find(r.cb(), r.ce(), v); while (i < r.n && !Q(r.o[i] == v)) ++i; A_(g == r.a + i, "find returns the first equal element or the end"); if (i < r.n) vp_reach("mixed found"); break; }
   case 1: { int g = ttl::count(r.cb(), r.ce(), v), c = 0; for (; i < r.n; ++i) c += Q(r.o[i] == v); A_(g == c, "count counts the equal elements"); break; }
   case 2: { Rng<V> s(SZ("m", NS + 1), "y"); bool pr = vp_choice("pred", 2); const E *g = pr ? ttl::search(r.cb(), r.ce(), s.cb(), s.ce(), Low()) : ttl::search(r.cb(), r.ce(), s.cb(), s.ce());
      for (; i + s.n <= r.n; ++i) { int j = 0; while (j < s.n && Q(pr ? Low()(r.o[i+j], s.o[j]) : r.o[i+j] == s.o[j])) ++j; if (j == s.n) break; } if (i + s.n > r.n) i = r.n; A_(g == r.a + i, "search returns the first occurrence of the whole pattern or the end"); s.same(); break; }
   case 7: { int k = SZ("count", NS + 1); bool pr = vp_choice("pred", 2); long c = (1L << 32) + k; const E *g = pr ? ttl::search_n(r.cb(), r.ce(), c, v, Low()) : ttl::search_n(r.cb(), r.ce(), c, v); A_(g == r.ce(), "search_n: no run is that long");
      g = pr ? ttl::search_n(r.cb(), r.ce(), (unsigned long)c, v, Low()) : ttl::search_n(r.cb(), r.ce(), (unsigned long)c, v); A_(g == r.ce(), "search_n: no run is that long"); c -= 1L << 33; g = pr ? ttl::search_n(r.cb(), r.ce(), c, v, Low()) : ttl::search_n(r.cb(), r.ce(), c, v); A_(g == r.cb(), "search_n: less than nothing is found at once"); break; }
   case 3: { int k = SZ("count", NS + 2); const E *g = vp_choice("size type", 2) ? ttl::search_n(r.cb(), r.ce(), (unsigned char)k, v) : ttl::search_n(r.cb(), r.ce(), (long)k, v);
      for (; i + k <= r.n; ++i) { int j = 0; while (j < k && Q(r.o[i+j] == v)) ++j; if (j == k) break; } if (i + k > r.n) i = r.n; A_(g == r.a + i, "search_n returns the first run of count matching elements or the end"); break; }
   case 4: { bool two = vp_choice("both ends", 2), pr = vp_choice("pred", 2); Rng<V> s(two ? SZ("m", NL + 1) : r.n, "y"); bool g = two ? pr ? ttl::equal(r.cb(), r.ce(), s.cb(), s.ce(), Low()) : ttl::equal(r.cb(), r.ce(), s.cb(), s.ce()) : pr ? ttl::equal(r.cb(), r.ce(), s.cb(), Low()) : ttl::equal(r.cb(), r.ce(), s.cb());
      bool e = r.n == s.n; for (; i < r.n && i < s.n; ++i) e = e & (pr ? Low()(r.o[i], s.o[i]) : r.o[i] == s.o[i]); A_(g == e, "equal compares lengths and all elements"); s.same(); break; }
   case 5: { bool two = vp_choice("both ends", 2), pr = vp_choice("pred", 2); Rng<V> s(two ? SZ("m", NL + 1) : r.n, "y"); ttl::pair<const E *, const V *> g = two ? pr ? ttl::mismatch(r.cb(), r.ce(), s.cb(), s.ce(), Low()) : ttl::mismatch(r.cb(), r.ce(), s.cb(), s.ce()) : pr ? ttl::mismatch(r.cb(), r.ce(), s.cb(), Low()) : ttl::mismatch(r.cb(), r.ce(), s.cb());
      while (i < r.n && i < s.n && Q(pr ? Low()(r.o[i], s.o[i]) : r.o[i] == s.o[i])) ++i; A_(g.first == r.a + i && g.second == s.a + i, "mismatch returns the first differing positions"); s.same(); break; }
   case 6: { const E *g = ttl::adjacent_find(r.cb(), r.ce()); while (i + 1 < r.n && !Q(r.o[i] == r.o[i+1])) ++i; A_(g == (i + 1 < r.n ? r.a + i : r.a + r.n), "adjacent_find returns the first of the first matching neighbours or the end"); break; }
   }
   r.same(); vp_observe(i);
}
template<class E, class V> struct Conv { V operator()(E x) const { return (V)(x ^ 5); } };
template<class E, class V> struct Conv2 { V operator()(E x, V y) const { return (V)(x ^ y); } };
template<class V> struct Odd { bool operator()(V x) const { return x & 1; } };
template<class V> struct Src { V v; V operator()() const { return v; } };
template<class E, class V> static void modify()
{
   Rng<E> r(SZ("n", NL + 1), "x"); V v = any<V>("v"), nv = any<V>("new"); int n = r.n, w = 0; E e[130]; for (int i = 0; i < n; ++i) e[i] = r.o[i]; bool ok = true; V d[130], x[130], old = any<V>("old"); for (int i = 0; i <= n; ++i) d[i] = x[i] = old;
   E f[130]; E *z = f; V *g = d; int op = vp_choice("op", 19); bool src = true; int m = n;
   switch (op) {
   case 0: ttl::fill(r.b(), r.e(), v); for (int i = 0; i < n; ++i) e[i] = (E)v; src = false; break;
   case 1: A_(ttl::fill_n(r.b(), (unsigned char)n, v) == r.e(), "fill_n returns the end of what it wrote"); for (int i = 0; i < n; ++i) e[i] = (E)v; src = false; break;
   case 2: A_(ttl::fill_n(r.b(), (ttl::size_t)n, v) == r.e(), "fill_n returns the end of what it wrote"); for (int i = 0; i < n; ++i) e[i] = (E)v; src = false; break;
   case 3: ttl::replace(r.b(), r.e(), v, nv); for (int i = 0; i < n; ++i) if (Q(r.o[i] == v)) e[i] = (E)nv; src = false; break;
   case 4: ttl::replace_if(r.b(), r.e(), Odd<V>(), nv); for (int i = 0; i < n; ++i) if (Q(Odd<V>()((V)r.o[i]))) e[i] = (E)nv; src = false; break;
   case 5: { E *q = ttl::remove(r.b(), r.e(), v); for (int i = 0; i < n; ++i) if (!Q(r.o[i] == v)) e[w++] = r.o[i]; A_(q == r.a + w, "remove returns the end of the kept elements"); m = w; w = 0; src = false; break; }
   case 6: { E *q = ttl::remove_if(r.b(), r.e(), Odd<V>()); for (int i = 0; i < n; ++i) if (!Q(Odd<V>()((V)r.o[i]))) e[w++] = r.o[i]; A_(q == r.a + w, "remove_if returns the end of the kept elements"); m = w; w = 0; src = false; break; }
   case 7: g = ttl::copy(r.cb(), r.ce(), d); for (int i = 0; i < n; ++i) x[w++] = (V)r.o[i]; break;
   case 8: g = ttl::copy_backward(r.cb(), r.ce(), d + n); for (int i = 0; i < n; ++i) x[i] = (V)r.o[i]; break;
   case 9: g = ttl::copy_n(r.cb(), (unsigned short)n, d); for (int i = 0; i < n; ++i) x[w++] = (V)r.o[i]; break;
   case 10: g = ttl::copy_if(r.cb(), r.ce(), d, Odd<V>()); for (int i = 0; i < n; ++i) if (Q(Odd<V>()((V)r.o[i]))) x[w++] = (V)r.o[i]; break;
   case 11: g = ttl::remove_copy(r.cb(), r.ce(), d, v); for (int i = 0; i < n; ++i) if (!Q(r.o[i] == v)) x[w++] = (V)r.o[i]; break;
   case 12: g = ttl::remove_copy_if(r.cb(), r.ce(), d, Odd<V>()); for (int i = 0; i < n; ++i) if (!Q(Odd<V>()((V)r.o[i]))) x[w++] = (V)r.o[i]; break;
   case 13: z = ttl::replace_copy(r.cb(), r.ce(), f, v, nv); for (int i = 0; i < n; ++i) ok = ok & (f[i] == (E)(Q(r.o[i] == v) ? (E)nv : r.o[i])); A_(z == f + n, "the end of what was written is returned"); break;
   case 14: g = ttl::transform(r.cb(), r.ce(), d, Conv<E, V>()); for (int i = 0; i < n; ++i) x[w++] = Conv<E, V>()(r.o[i]); break;
   case 15: { Rng<V> s(n, "y"); g = ttl::transform(r.cb(), r.ce(), s.cb(), d, Conv2<E, V>()); for (int i = 0; i < n; ++i) x[w++] = Conv2<E, V>()(r.o[i], s.o[i]); s.same(); break; }
   case 16: g = ttl::reverse_copy(r.cb(), r.ce(), d); for (int i = 0; i < n; ++i) x[w++] = (V)r.o[n - 1 - i]; break;
   case 17: { Src<V> s; s.v = v; ttl::generate(r.b(), r.e(), s); for (int i = 0; i < n; ++i) e[i] = (E)v; src = false; break; }
   case 18: ttl::iota(r.b(), r.e(), nv = (V)(nv & 0x3f)); for (int i = 0; i < n; ++i) e[i] = (E)(V)(nv + (V)i); src = false; break;
   }
   A_(g == d + w, "the end of what was written is returned"); for (int i = 0; i <= n; ++i) ok = ok & (d[i] == x[i]); for (int i = 0; i < m; ++i) ok = ok & (r.a[i] == e[i]); A_(ok, "exactly the defined elements are written to exactly the defined places"); if (src) r.same(); vp_observe(w);
}
// here the order of V extends that of E
template<class E, class V> static void bound()
{
   Rng<E> r(SZ("n", NL + 2), "x"); r.sort(); V v = any<V>("v"); int n = r.n, lo = 0, hi = 0; const E *l = 0, *u = 0;
   switch (vp_choice("op", 4)) {
   case 0: l = ttl::lower_bound(r.cb(), r.ce(), v); break;
   case 1: u = ttl::upper_bound(r.cb(), r.ce(), v); break;
   case 2: { ttl::pair<const E *, const E *> p = ttl::equal_range(r.cb(), r.ce(), v); l = p.first; u = p.second; break; }
   case 3: { bool g = ttl::binary_search(r.cb(), r.ce(), v), e = false; for (int i = 0; i < n && !e; ++i) e = Q(r.o[i] == v); A_(g == e, "binary_search reports exactly whether an equivalent element exists"); break; }
   }
   lo = l ? (int)(l - r.a) : 0; hi = u ? (int)(u - r.a) : 0; A_(lo >= 0 && lo <= n && hi >= 0 && hi <= n, "a position in the range"); bool el = true, eu = true;
   for (int i = 0; i < n; ++i) { el = el & ((r.o[i] < v) == (i < lo)); eu = eu & ((r.o[i] <= v) == (i < hi)); }
   if (l) A_(el, "lower bound is the first element not ordered before the value"); if (u) A_(eu, "upper bound is the first element ordered after the value"); r.same(); vp_observe(lo);
}
template<class E, class V, class D> static void merge()
{
   Rng<E> r(SZ("n", NL), "x"); r.sort(); Rng<V> s(SZ("m", NL), "y"); s.sort(); D d[20]; d[r.n + s.n] = 77;
   D *g = ttl::merge(r.cb(), r.ce(), s.cb(), s.ce(), d); A_(g == d + r.n + s.n, "merge returns the end of what it wrote"); A_(d[r.n + s.n] == 77, "nothing is written behind the result");
   int i = 0, j = 0; for (int k = 0; k < r.n + s.n; ++k) { bool t = i >= r.n || (j < s.n && Q(s.o[j] < r.o[i])); A_(d[k] == (t ? (D)s.o[j] : (D)r.o[i]), "merge is the stable interleaving of the two ranges"); if (t) ++j; else ++i; } r.same(); s.same();
}
template<class E> static void extrema()
{
   Rng<E> r(SZ("n", NL + 1), "x"); int n = r.n, lo = 0, hi = 0; const E *a = ttl::min_element(r.cb(), r.ce()), *b = ttl::max_element(r.cb(), r.ce()); ttl::pair<const E *, const E *> p = ttl::minmax_element(r.cb(), r.ce());
   for (int i = 1; i < n; ++i) { if (Q(r.o[i] < r.o[lo])) lo = i; if (Q(r.o[hi] < r.o[i])) hi = i; }
   A_(a == r.a + lo && b == r.a + hi && p.first == a, "the first extreme elements"); if (n) A_(*p.second == r.o[hi], "minmax_element: a greatest element"); else A_(p.second == r.a, "nothing to find");
   int q = n ? 1 : 0; while (q < n && !Q(r.o[q] < r.o[q-1])) ++q; A_(ttl::is_sorted_until(r.cb(), r.ce()) == r.a + q && ttl::is_sorted(r.cb(), r.ce()) == (q == n), "is_sorted_until");
   E x = any<E>("a"), y = any<E>("b"); ttl::pair<const E &, const E &> m = ttl::minmax(x, y); A_((ttl::min(x, y) == (y < x ? y : x)) & (ttl::max(x, y) == (x < y ? y : x)) & (m.first == (y < x ? y : x)) & (m.second == (y < x ? x : y)), "min, max and minmax"); r.same();
}
template<class E, class V> static void sum()
{
   Rng<E> r(SZ("n", NL + 1), "x"); V s = any<V>("init"), e = s; if (sizeof(V) == 8) s = e = (V)(s & 0xffff); for (int i = 0; i < r.n; ++i) e = (V)(e + r.o[i]); A_(ttl::accumulate(r.cb(), r.ce(), s) == e, "accumulate is the sum of the initial value and all elements, in the type of the initial value"); vp_observe((long)e);
}
typedef unsigned char u8; typedef signed char i8; typedef unsigned int u32; typedef long i64;
#define TYPES(f) switch (vp_choice("types", 5)) { case 0: f<u8, int>(); break; case 1: f<i8, u32>(); break; case 2: f<int, i64>(); break; case 3: f<i64, int>(); break; case 4: f<u32, u8>(); break; }
VP_ENTRY(x_search) { TYPES(search) }
VP_ENTRY(x_modify) { TYPES(modify) }
VP_ENTRY(x_bound) { switch (vp_choice("types", 6)) { case 0: bound<u8, int>(); break; case 1: bound<i8, i64>(); break; case 2: bound<u32, i64>(); break; case 3: bound<i64, int>(); break; case 4: bound<i64, i8>(); break; case 5: bound<u32, u8>(); break; } }
VP_ENTRY(x_merge) { switch (vp_choice("types", 4)) { case 0: merge<u8, int, i64>(); break; case 1: merge<i8, int, i64>(); break; case 2: merge<i64, int, int>(); break; case 3: merge<u32, u8, u8>(); break; } }
VP_ENTRY(x_extrema) { switch (vp_choice("types", 4)) { case 0: extrema<u8>(); break; case 1: extrema<i8>(); break; case 2: extrema<u32>(); break; case 3: extrema<i64>(); break; } }
VP_ENTRY(x_sum) { switch (vp_choice("types", 5)) { case 0: sum<u8, u32>(); break; case 1: sum<i8, i64>(); break; case 2: sum<u32, i64>(); break; case 3: sum<int, i64>(); break; case 4: sum<u32, u8>(); break; } }
// containers filled from ranges of another element type
template<class C, class E> static void content(C &c, const E *o, int n) { int k = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i, ++k) { A_(k < n, "no extra elements"); A_(*i == o[k], "elements are those given, converted"); } A_(k == n, "no element is lost"); }
template<class C, class T, class E> static void filled()
{
   { Rng<E> r(SZ("n", NL + 1), "x"); T o[260]; C c; int n = 0, p = SZ("pos", 3), k = 0; T h[2] = { any<T>("h"), any<T>("h") };
   c.insert(c.end(), h[0]); c.insert(c.end(), h[1]);
   typename C::iterator i = c.begin(); for (int q = 0; q < p; ++q) { ++i; o[n++] = h[q]; } for (; k < r.n; ++k) o[n++] = (T)r.o[k]; for (int q = p; q < 2; ++q) o[n++] = h[q];
   c.insert(i, r.cb(), r.ce()); content(c, o, n); r.same(); C d(r.cb(), r.ce()); for (k = 0; k < r.n; ++k) o[k] = (T)r.o[k]; content(d, o, r.n); c.assign(r.cb(), r.ce()); content(c, o, r.n); A_(c == d, "equal contents"); }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(x_vector) { switch (vp_choice("types", 3)) { case 0: filled<ttl::vector<i64>, i64, int>(); break; case 1: filled<ttl::vector<u8>, u8, int>(); break; case 2: filled<ttl::vector<int>, int, u8>(); break; } }
VP_ENTRY(x_list) { switch (vp_choice("types", 3)) { case 0: filled<ttl::list<i64>, i64, int>(); break; case 1: filled<ttl::list<u8>, u8, int>(); break; case 2: filled<ttl::list<int>, int, i8>(); break; } }
template<class C, class T, class E> static void chained(bool ctor)
{
   { Rng<E> r(SZ("n", NL + 1), "x"); T o[260]; C c; int n = 0, p = SZ("after", 3), k = 0; T h[2] = { any<T>("h"), any<T>("h") }; c.push_front(h[1]); c.push_front(h[0]);
   typename C::iterator i = c.before_begin(); for (int q = 0; q < p; ++q) { ++i; o[n++] = h[q]; } for (; k < r.n; ++k) o[n++] = (T)r.o[k]; for (int q = p; q < 2; ++q) o[n++] = h[q];
   c.insert_after(i, r.cb(), r.ce()); content(c, o, n); r.same(); }
   A_(vp_heap_live() == 0, "memory released");
}
template<class C, class T, class E> static void whole()
{
   { Rng<E> r(SZ("n", NL + 1), "x"); T o[260]; C c(r.cb(), r.ce()), d; d.push_front(any<T>("h")); for (int k = 0; k < r.n; ++k) o[k] = (T)r.o[k]; content(c, o, r.n); d.assign(r.cb(), r.ce()); content(d, o, r.n); r.same(); }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(x_fwd) { switch (vp_choice("types", 4)) { case 0: chained<ttl::forward_list<i64>, i64, int>(1); break; case 1: chained<ttl::forward_list<u8>, u8, int>(1); break; case 2: whole<ttl::forward_list<i64>, i64, int>(); break; case 3: whole<ttl::forward_list<int>, int, i8>(); break; } }
VP_ENTRY(x_back) { switch (vp_choice("types", 4)) { case 0: chained<ttl::backward_list<i64>, i64, int>(1); break; case 1: chained<ttl::backward_list<u8>, u8, int>(1); break; case 2: whole<ttl::backward_list<i64>, i64, int>(); break; case 3: whole<ttl::backward_list<int>, int, i8>(); break; } }
VP_ENTRY(x_lazy) { switch (vp_choice("types", 2)) { case 0: chained<ttl::lazy_queue<i64>, i64, int>(0); break; case 1: chained<ttl::lazy_queue<u8>, u8, int>(0); break; } }
template<class T, class E> static void fixedv()
{
   Rng<E> r(SZ("n", NL + 2), "x"); T o[260], h[2] = { any<T>("h"), any<T>("h") }; int n = 0, p = SZ("pos", 3), k = 0; typedef ttl::fixed_vector<T, NL> C; C c; c.push_back(h[0]); c.push_back(h[1]);
   for (int q = 0; q < p; ++q) o[n++] = h[q]; for (; k < r.n; ++k) o[n++] = (T)r.o[k]; for (int q = p; q < 2; ++q) o[n++] = h[q];
   if (r.n + 2 <= NL) { c.insert(c.begin() + p, r.cb(), r.ce()); content(c, o, n); } for (k = 0; k < r.n; ++k) o[k] = (T)r.o[k]; c.assign(r.cb(), r.ce()); content(c, o, r.n < NL ? r.n : NL); r.same();
}
VP_ENTRY(x_fixed) { switch (vp_choice("types", 3)) { case 0: fixedv<i64, int>(); break; case 1: fixedv<u8, int>(); break; case 2: fixedv<int, i8>(); break; } }
template<class T, class E> static void keyed()
{
   { Rng<E> r(SZ("n", NL), "x"); T o[130]; int n = 0; ttl::set<T> s(r.cb(), r.ce()); for (int i = 0; i < r.n; ++i) { T x = (T)r.o[i]; int p = 0; while (p < n && Q(o[p] < x)) ++p; if (p < n && Q(o[p] == x)) continue; for (int q = n; q > p; --q) o[q] = o[q-1]; o[p] = x; ++n; }
   content(s, o, n); r.same(); ttl::pair<E, u8> z[NL + 1]; u8 v[NL + 1]; for (int i = 0; i < r.n; ++i) { z[i].first = r.o[i]; z[i].second = any<u8>("v"); }
   ttl::map<T, int> m(z, z + r.n); int k = 0; for (typename ttl::map<T, int>::iterator i = m.begin(); i != m.end(); ++i, ++k) { A_(k < n, "no extra elements"); A_(i->first == o[k], "keys are those given, converted"); int q = 0; while (!Q((T)r.o[q] == o[k])) ++q; A_(i->second == z[q].second, "the first value given for a key stays"); } A_(k == n, "no element is lost"); }
   A_(vp_heap_live() == 0, "memory released");
}
VP_ENTRY(x_keyed) { switch (vp_choice("types", 3)) { case 0: keyed<i64, int>(); break; case 1: keyed<u8, int>(); break; case 2: keyed<int, i8>(); break; } }
