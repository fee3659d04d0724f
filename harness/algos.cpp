// Algorithms: searching (P22), modifying (P23), binary search (P24), merging and extrema (P25).
#include "common.h"
#ifndef NL
#define NL 4       // longest range
#endif
#ifndef NS
#define NS 3       // longest second range / pattern / repeat count
#endif
#ifndef NB
#define NB 12      // longest range of binary searches
#endif
#ifdef VP_PERMISSIVE
#define MORE(I) void at(T *q) { p = q; } I &operator--() { at(p - 1); return *this; } I operator--(int) { I t(*this); at(p - 1); return t; } \
   I &operator+=(long n) { at(p + n); return *this; } I &operator-=(long n) { at(p - n); return *this; } I operator+(long n) const { I t(*this); t.at(p + n); return t; } I operator-(long n) const { I t(*this); t.at(p - n); return t; } \
   long operator-(const I &o) const { return p - o.p; } bool operator<(const I &o) const { return p < o.p; } bool operator>(const I &o) const { return p > o.p; } bool operator<=(const I &o) const { return p <= o.p; } bool operator>=(const I &o) const { return p >= o.p; } \
   T &operator[](long n) const { I t(*this); t.at(p + n); return *t; } T *operator->() const { return &**this; }
#else
#define MORE(I)
#endif
// Iterators that only allow what their category allows and only touch elements of their range.
#ifdef RAWPTR    // plain pointers; sources through pointers to const with RAWPTR > 1
template<class T> using FI = T *; template<class T> using BI = T *;
template<class T> static T *mkF(T *a, T *, T *) { return a; }
template<class T> static T *mkB(T *a, T *, T *) { return a; }
template<class T> static T *raw(T *a) { return const_cast<typename ttl::remove_const<T>::type *>(a); }
#if RAWPTR > 1
template<class T> using SI = const T *;
#else
template<class T> using SI = T *;
#endif
template<class T> static SI<T> mkS(T *a, T *, T *) { return a; }
#else
template<class T> struct FI {
   typedef T value_type; typedef T *pointer; typedef T &reference; typedef ttl::ptrdiff_t difference_type;
   T *p, *lo, *hi; FI(): p(0), lo(0), hi(0) {} FI(T *a, T *l, T *h): p(a), lo(l), hi(h) {}
   T &operator*() const { A_(p >= lo && p < hi, "only elements of the given ranges are accessed"); return *p; }
   FI &operator++() { A_(p < hi, "iteration stays inside the range"); ++p; return *this; } FI operator++(int) { FI t(*this); ++*this; return t; }
   bool operator==(const FI &o) const { return p == o.p; } bool operator!=(const FI &o) const { return p != o.p; }
   MORE(FI)
};
template<class T> struct BI {
   typedef T value_type; typedef T *pointer; typedef T &reference; typedef ttl::ptrdiff_t difference_type;
   T *p, *lo, *hi; BI(): p(0), lo(0), hi(0) {} BI(T *a, T *l, T *h): p(a), lo(l), hi(h) {}
   T &operator*() const { A_(p >= lo && p < hi, "only elements of the given ranges are accessed"); return *p; }
   BI &operator++() { A_(p < hi, "iteration stays inside the range"); ++p; return *this; } BI operator++(int) { BI t(*this); ++*this; return t; }
#ifndef VP_PERMISSIVE
   BI &operator--() { A_(p > lo, "iteration stays inside the range"); --p; return *this; } BI operator--(int) { BI t(*this); --*this; return t; }
#endif
   bool operator==(const BI &o) const { return p == o.p; } bool operator!=(const BI &o) const { return p != o.p; }
   MORE(BI)
};
template<class T> using SI = FI<T>;
template<class T> static FI<T> mkF(T *a, T *l, T *h) { return FI<T>(a, l, h); }
template<class T> static FI<T> mkS(T *a, T *l, T *h) { return FI<T>(a, l, h); }
template<class T> static BI<T> mkB(T *a, T *l, T *h) { return BI<T>(a, l, h); }
template<class I> static auto raw(const I &i) -> decltype(i.p) { return i.p; }
#endif
#ifndef WINL
#define WINL 400   // at most this many arbitrary values per range, next to each other; the others are known
#endif
static int window(int n) { if (n <= WINL) return 0; switch (vp_choice("window", 3)) { case 0: return 0; case 1: return (n - WINL) / 2; default: return n - WINL; } }
static int value(const char *nm, int i, int at) { return i >= at && i < at + WINL ? vp_int(nm) : i % 3 ? 8 : 17; }
// A buffer of exactly n arbitrary values
template<class T> struct Arr {
   T *a; int n; int o[400];
   Arr(int k, const char *nm): a(new T[k]), n(k) { int at = window(n); for (int i = 0; i < n; ++i) { o[i] = value(nm, i, at); a[i] = T(o[i]); } }
   ~Arr() { delete [] a; }
   FI<T> fb() const { return mkF(a, a, a + n); } FI<T> fe() const { return mkF(a + n, a, a + n); } FI<T> fi(int i) const { return mkF(a + i, a, a + n); }
   SI<T> sb() const { return mkS(a, a, a + n); } SI<T> se() const { return mkS(a + n, a, a + n); }
   BI<T> bb() const { return mkB(a, a, a + n); } BI<T> be() const { return mkB(a + n, a, a + n); } BI<T> bi(int i) const { return mkB(a + i, a, a + n); }
   void same() const { bool r = true; for (int i = 0; i < n; ++i) r = r & (val(a[i]) == o[i]); A_(r, "the source range is not modified"); }
};
typedef Arr<int> IA;
// arbitrary predicates: any truth table over the values' low bits
struct Un { unsigned t; bool operator()(int x) const { return (t >> (x & 7)) & 1; } };
struct Bi { unsigned t; bool operator()(int x, int y) const { return (t >> ((x & 3) * 4 + (y & 3))) & 1; } };
static Un anyUn() { Un u; u.t = vp_u32("unary predicate"); return u; }
static Bi anyBi() { Bi u; u.t = vp_u32("binary predicate"); return u; }
static bool Q(bool b) { return vp_concretize(b); }

// ------------------------------------------------------------ P22
VP_ENTRY(s_find)
{
   IA r(SZ("n", NL + 1), "x"); int v = vp_int("v"); SI<int> g;
   switch (vp_choice("op", 3)) {
   case 0: { g = ttl::find(r.sb(), r.se(), v); int i = 0; while (i < r.n && !Q(r.o[i] == v)) ++i; A_(g == r.fi(i), "find returns the first equal element or the end"); if (i < r.n) vp_reach("found"); break; }
   case 1: { Un u = anyUn(); g = ttl::find_if(r.sb(), r.se(), u); int i = 0; while (i < r.n && !Q(u(r.o[i]))) ++i; A_(g == r.fi(i), "find_if returns the first element the predicate accepts or the end"); break; }
   case 2: { Un u = anyUn(); g = ttl::find_if_not(r.sb(), r.se(), u); int i = 0; while (i < r.n && Q(u(r.o[i]))) ++i; A_(g == r.fi(i), "find_if_not returns the first element the predicate rejects or the end"); break; }
   }
   r.same(); vp_observe(raw(g) - r.a);
}
VP_ENTRY(s_count)
{
   IA r(SZ("n", NL + 1), "x"); int v = vp_int("v"), c = 0; bool all = true, any = false; Un u = anyUn();
   if (vp_choice("pred", 2)) {
      int g = ttl::count_if(r.sb(), r.se(), u); for (int i = 0; i < r.n; ++i) c += Q(u(r.o[i])); A_(g == c, "count_if counts the accepted elements");
      for (int i = 0; i < r.n; ++i) { bool t = Q(u(r.o[i])); all = all && t; any = any || t; }
      A_(ttl::all_of(r.sb(), r.se(), u) == all, "all_of"); A_(ttl::any_of(r.sb(), r.se(), u) == any, "any_of"); A_(ttl::none_of(r.sb(), r.se(), u) == !any, "none_of"); if (!r.n) vp_reach("quantifier over nothing");
   } else { int g = ttl::count(r.sb(), r.se(), v); for (int i = 0; i < r.n; ++i) c += Q(r.o[i] == v); A_(g == c, "count counts the equal elements"); vp_observe(g); }
   r.same();
}
VP_ENTRY(s_quant)       // the quantifiers on their own
{
   IA r(SZ("n", NL + 1), "x"); Un u = anyUn(); int op = vp_choice("op", 3); bool g = op == 0 ? ttl::all_of(r.sb(), r.se(), u) : op == 1 ? ttl::any_of(r.sb(), r.se(), u) : ttl::none_of(r.sb(), r.se(), u);
   bool all = true, any = false; for (int i = 0; i < r.n; ++i) { bool t = u(r.o[i]); all = all & t; any = any | t; }
   A_(g == (op == 0 ? all : op == 1 ? any : !any), "all_of/any_of/none_of"); r.same();
}
VP_ENTRY(s_adjacent)
{
   IA r(SZ("n", NL + 2), "x"); Bi b = anyBi(); bool pr = vp_choice("pred", 2); SI<int> g = pr ? ttl::adjacent_find(r.sb(), r.se(), b) : ttl::adjacent_find(r.sb(), r.se());
   int i = 0; while (i + 1 < r.n && !Q(pr ? b(r.o[i], r.o[i+1]) : r.o[i] == r.o[i+1])) ++i;
   A_(g == (i + 1 < r.n ? r.fi(i) : r.se()), "adjacent_find returns the first of the first matching neighbours or the end"); r.same(); vp_observe(raw(g) - r.a);
}
VP_ENTRY(s_search)
{
   IA r(SZ("n", NL + 1), "x"), s(SZ("m", NS + 1), "y"); Bi b = anyBi(); bool pr = vp_choice("pred", 2);
   SI<int> g = pr ? ttl::search(r.sb(), r.se(), s.sb(), s.se(), b) : ttl::search(r.sb(), r.se(), s.sb(), s.se());
   int i = 0; for (; i + s.n <= r.n; ++i) { int j = 0; while (j < s.n && Q(pr ? b(r.o[i+j], s.o[j]) : r.o[i+j] == s.o[j])) ++j; if (j == s.n) break; } if (i + s.n > r.n) i = r.n;
   A_(g == r.fi(i), "search returns the first occurrence of the whole pattern or the end"); if (s.n > r.n) vp_reach("pattern longer than the range"); if (!s.n) vp_reach("empty pattern"); if (s.n > 1 && i && i < r.n) vp_reach("pattern found later"); r.same(); s.same(); vp_observe(raw(g) - r.a);
}
VP_ENTRY(s_search_n)
{
   IA r(SZ("n", NL + 1), "x"); int c = SZ("count", NS + 3) - 1, v = vp_int("v"); Bi b = anyBi(); bool pr = vp_choice("pred", 2);
   SI<int> g = pr ? ttl::search_n(r.sb(), r.se(), c, v, b) : ttl::search_n(r.sb(), r.se(), c, v);
   int k = c < 0 ? 0 : c, i = 0; for (; i + k <= r.n; ++i) { int j = 0; while (j < k && Q(pr ? b(r.o[i+j], v) : r.o[i+j] == v)) ++j; if (j == k) break; } if (i + k > r.n) i = r.n;
   A_(g == r.fi(i), "search_n returns the first run of count matching elements or the end"); if (k > r.n) vp_reach("count beyond the range"); if (k > 1 && i && i < r.n) vp_reach("run found later"); r.same(); vp_observe(raw(g) - r.a);
}
VP_ENTRY(s_equal)
{
   int n = SZ("n", NL + 1); bool two = vp_choice("both ends", 2), pr = vp_choice("pred", 2); IA r(n, "x"), s(two ? SZ("m", NL + 1) : n + vp_choice("more", 2), "y"); Bi b = anyBi();
   bool g = two ? (pr ? ttl::equal(r.sb(), r.se(), s.sb(), s.se(), b) : ttl::equal(r.sb(), r.se(), s.sb(), s.se())) : (pr ? ttl::equal(r.sb(), r.se(), s.sb(), b) : ttl::equal(r.sb(), r.se(), s.sb()));
   bool e = !two || r.n == s.n; for (int i = 0; i < r.n && i < s.n; ++i) e = e & (pr ? b(r.o[i], s.o[i]) : r.o[i] == s.o[i]);
   A_(g == e, "equal compares lengths and all elements"); if (two && r.n != s.n) vp_reach("lengths differ"); r.same(); s.same(); vp_observe(g);
}
VP_ENTRY(s_mismatch)
{
   int n = SZ("n", NL + 1); bool two = vp_choice("both ends", 2), pr = vp_choice("pred", 2); IA r(n, "x"), s(two ? SZ("m", NL + 1) : n, "y"); Bi b = anyBi();
   ttl::pair<SI<int>, SI<int> > g = two ? (pr ? ttl::mismatch(r.sb(), r.se(), s.sb(), s.se(), b) : ttl::mismatch(r.sb(), r.se(), s.sb(), s.se())) : (pr ? ttl::mismatch(r.sb(), r.se(), s.sb(), b) : ttl::mismatch(r.sb(), r.se(), s.sb()));
   int i = 0; while (i < r.n && i < s.n && Q(pr ? b(r.o[i], s.o[i]) : r.o[i] == s.o[i])) ++i;
   A_(g.first == r.fi(i) && g.second == s.fi(i), "mismatch returns the first differing positions"); r.same(); s.same(); vp_observe(i);
}
struct Sum { int v[400]; int n; Sum(): n(0) {} void operator()(int x) { v[n++] = x; } };
VP_ENTRY(s_for_each)
{
   IA r(SZ("n", NL + 1), "x"); Sum f = ttl::for_each(r.sb(), r.se(), Sum()); bool e = f.n == r.n; for (int i = 0; i < r.n && i < f.n; ++i) e = e & (f.v[i] == r.o[i]);
   A_(e, "for_each applies the function to every element in order and returns it"); r.same();
}

// ------------------------------------------------------------ P23
// the destination: n places inside a buffer with one guard on each side
struct Dst {
   IA b; Dst(int n): b(n, "old") {}
   FI<int> f(int i) const { return b.fi(i); } BI<int> bi(int i) const { return b.bi(i); }
   // exactly w elements written (e), the rest as before
   void is(int at, const int *e, int w) const { bool r = true; for (int i = 0; i < b.n; ++i) r = r & (b.a[i] == (i >= at && i < at + w ? e[i-at] : b.o[i])); A_(r, "exactly the defined elements are written to exactly the defined places"); if (b.n) vp_observe(b.a[0]); }
};
struct Aff { int k; int operator()(int x) const { return (int)((unsigned)x * 3u + (unsigned)k); } };
struct Aff2 { int operator()(int x, int y) const { return (int)((unsigned)x - 2u * (unsigned)y); } };
VP_ENTRY(m_copy)          // separate source and destination
{
   IA r(SZ("n", NL + 1), "x"); Dst d(r.n + 1); int e[400]; int w = 0; Un u = anyUn(); int v = vp_int("v"), nv = vp_int("new");
   int op = vp_choice("op", 12);
   if (op == 1 || op == 10) {  // from the back
      if (op == 1) { BI<int> g = ttl::copy_backward(r.bb(), r.be(), d.bi(r.n + 1)); A_(g == d.bi(1), "copy_backward returns the begin of what it wrote"); d.is(1, r.o, r.n); }
      else { FI<int> g = ttl::reverse_copy(r.bb(), r.be(), d.f(0)); A_(g == d.f(r.n), "reverse_copy returns the end of what it wrote"); for (int i = 0; i < r.n; ++i) e[i] = r.o[r.n - 1 - i]; d.is(0, e, r.n); }
      r.same(); return;
   }
   FI<int> g;
   switch (op) {
   case 0: g = ttl::copy(r.sb(), r.se(), d.f(0)); for (int i = 0; i < r.n; ++i) e[w++] = r.o[i]; break;
   case 2: g = ttl::copy_n(r.sb(), r.n, d.f(0)); for (int i = 0; i < r.n; ++i) e[w++] = r.o[i]; break;
   case 3: g = ttl::copy_if(r.sb(), r.se(), d.f(0), u); for (int i = 0; i < r.n; ++i) if (Q(u(r.o[i]))) e[w++] = r.o[i]; break;
   case 4: g = ttl::remove_copy(r.sb(), r.se(), d.f(0), v); for (int i = 0; i < r.n; ++i) if (!Q(r.o[i] == v)) e[w++] = r.o[i]; break;
   case 5: g = ttl::remove_copy_if(r.sb(), r.se(), d.f(0), u); for (int i = 0; i < r.n; ++i) if (!Q(u(r.o[i]))) e[w++] = r.o[i]; break;
   case 6: g = ttl::replace_copy(r.sb(), r.se(), d.f(0), v, nv); for (int i = 0; i < r.n; ++i) e[w++] = Q(r.o[i] == v) ? nv : r.o[i]; break;
   case 7: g = ttl::replace_copy_if(r.sb(), r.se(), d.f(0), u, nv); for (int i = 0; i < r.n; ++i) e[w++] = Q(u(r.o[i])) ? nv : r.o[i]; break;
   case 8: { Aff f; f.k = v; g = ttl::transform(r.sb(), r.se(), d.f(0), f); for (int i = 0; i < r.n; ++i) e[w++] = f(r.o[i]); break; }
   case 9: { IA s(r.n, "y"); g = ttl::transform(r.sb(), r.se(), s.sb(), d.f(0), Aff2()); for (int i = 0; i < r.n; ++i) e[w++] = Aff2()(r.o[i], s.o[i]); s.same(); break; }
   case 11: g = ttl::copy_n(r.sb(), -1, d.f(0)); vp_reach("negative count"); break;
   }
   A_(g == d.f(w), "the end of what was written is returned"); d.is(0, e, w); r.same();
}
VP_ENTRY(m_overlap)       // the overlaps copy and copy_backward allow; whole-range in-place transform
{
   IA r(SZ("n", NL + 2), "x"); int f = SZ("first", r.n + 1), l = f + SZ("len", r.n - f + 1); bool ok = true;
   switch (vp_choice("op", 3)) {
   case 0: { int d = SZ("dest", f + 1); FI<int> g = ttl::copy(r.fi(f), r.fi(l), r.fi(d)); A_(g == r.fi(d + l - f), "copy returns the end of what it wrote"); for (int i = 0; i < r.n; ++i) ok = ok & (r.a[i] == (i >= d && i < d + l - f ? r.o[f + i - d] : r.o[i])); if (d + l - f > f && d < f) vp_reach("forward overlap"); break; }
   case 1: { int d = l + SZ("dest", r.n - l + 1); BI<int> g = ttl::copy_backward(r.bi(f), r.bi(l), r.bi(d)); A_(g == r.bi(d - (l - f)), "copy_backward returns the begin of what it wrote"); for (int i = 0; i < r.n; ++i) ok = ok & (r.a[i] == (i < d && i >= d - (l - f) ? r.o[l - (d - i)] : r.o[i])); if (d - (l - f) < l && d > l) vp_reach("backward overlap"); break; }
   case 2: { Aff t; t.k = 5; FI<int> g = ttl::transform(r.fi(f), r.fi(l), r.fi(f), t); A_(g == r.fi(l), "transform returns the end of what it wrote"); for (int i = 0; i < r.n; ++i) ok = ok & (r.a[i] == (i >= f && i < l ? t(r.o[i]) : r.o[i])); break; }
   }
   A_(ok, "exactly the defined elements are written to exactly the defined places");
}
struct Gen0 { int operator()() const { return 1; } };
struct Gen { int *c; int operator()() { return 100 + (*c)++; } };
VP_ENTRY(m_inplace)
{
   IA r(SZ("n", NL + 2), "x"); int f = SZ("first", r.n + 1), l = f + SZ("len", r.n - f + 1), e[400]; for (int i = 0; i < r.n; ++i) e[i] = r.o[i];
   Un u = anyUn(); int v = vp_int("v"), nv = vp_int("new"), tail = r.n, nt = 0; FI<int> b = mkF(r.a + f, r.a + f, r.a + l), z = mkF(r.a + l, r.a + f, r.a + l); BI<int> bb = mkB(r.a + f, r.a + f, r.a + l), bz = mkB(r.a + l, r.a + f, r.a + l);
   switch (vp_choice("op", 11)) {
   case 0: ttl::fill(b, z, v); for (int i = f; i < l; ++i) e[i] = v; break;
   case 1: { FI<int> g = ttl::fill_n(b, l - f, v); A_(g == z, "fill_n returns the end of what it wrote"); for (int i = f; i < l; ++i) e[i] = v; break; }
   case 2: { int c = 0; Gen g; g.c = &c; ttl::generate(b, z, g); A_(c == l - f, "generate calls the generator once per element"); for (int i = f; i < l; ++i) e[i] = 100 + i - f; break; }
   case 3: { int c = 0; Gen g; g.c = &c; FI<int> q = ttl::generate_n(b, l - f, g); A_(c == l - f && q == z, "generate_n calls the generator once per element and returns the end"); for (int i = f; i < l; ++i) e[i] = 100 + i - f; break; }
   case 4: ttl::replace(b, z, v, nv); for (int i = f; i < l; ++i) if (Q(r.o[i] == v)) e[i] = nv; break;
   case 5: ttl::replace_if(b, z, u, nv); for (int i = f; i < l; ++i) if (Q(u(r.o[i]))) e[i] = nv; break;
   case 6: { FI<int> g = ttl::remove(b, z, v); int w = f; for (int i = f; i < l; ++i) if (!Q(r.o[i] == v)) e[w++] = r.o[i]; tail = w; nt = l; A_(raw(g) == r.a + w, "remove returns the end of the kept elements"); if (w < l && w > f) vp_reach("remove some"); break; }
   case 7: { FI<int> g = ttl::remove_if(b, z, u); int w = f; for (int i = f; i < l; ++i) if (!Q(u(r.o[i]))) e[w++] = r.o[i]; tail = w; nt = l; A_(raw(g) == r.a + w, "remove_if returns the end of the kept elements"); break; }
   case 8: ttl::reverse(bb, bz); for (int i = f; i < l; ++i) e[i] = r.o[l - 1 - (i - f)]; break;
   case 9: { FI<int> g = ttl::fill_n(b, 0, v); A_(g == b, "filling nothing writes nothing"); g = ttl::fill_n(b, -2, v); A_(g == b, "a negative count writes nothing"); g = ttl::generate_n(b, 0, Gen0()); A_(g == b, "generating nothing writes nothing"); break; }
   case 10: vp_assume(v < 0x7fffff00); ttl::iota(b, z, v); for (int i = f; i < l; ++i) e[i] = v + (i - f); break;
   }
   bool ok = true; for (int i = 0; i < r.n; ++i) if (i < tail || i >= nt) ok = ok & (r.a[i] == e[i]);
   A_(ok, "exactly the defined elements are written to exactly the defined places"); if (r.n) vp_observe(r.a[0]);
}
VP_ENTRY(m_swap_ranges)
{
   IA r(SZ("n", NL + 1), "x"), s(r.n + 1, "y"); FI<int> g = ttl::swap_ranges(r.fb(), r.fe(), s.fb()); A_(g == s.fi(r.n), "swap_ranges returns the end in the second range");
   bool ok = true; for (int i = 0; i < r.n; ++i) ok = ok & (r.a[i] == s.o[i]) & (s.a[i] == r.o[i]); ok = ok & (s.a[r.n] == s.o[r.n]); A_(ok, "exactly the elements of both ranges are exchanged");
   if (r.n > 1) { ttl::iter_swap(r.fi(0), s.fi(1)); A_((r.a[0] == r.o[1]) & (s.a[1] == s.o[0]) & (r.a[1] == s.o[1]) & (s.a[0] == r.o[0]), "iter_swap exchanges the two elements"); }
}
#ifndef VP_PERMISSIVE
VP_ENTRY(m_lists)         // the same algorithms through list iterators
{
   { ttl::list<int> c; Seq m; int n = SZ("n", NL + 1), at = window(n); for (int i = 0; i < n; ++i) { int x = value("x", i, at); c.push_back(x); m.push(x); }
   int v = vp_int("v"), nv = vp_int("new");
   switch (vp_choice("op", 5)) {
   case 0: ttl::reverse(c.begin(), c.end()); m.rev(); break;
   case 1: { ttl::list<int>::iterator e = ttl::remove(c.begin(), c.end(), v); Seq k; for (int i = 0; i < n; ++i) if (!Q(m.a[i] == v)) k.push(m.a[i]); int i = 0; for (ttl::list<int>::iterator j = c.begin(); j != e; ++j, ++i) A_(i < k.n && *j == k.a[i], "the kept elements in order"); A_(i == k.n, "all kept elements"); return; }
   case 2: ttl::replace(c.begin(), c.end(), v, nv); for (int i = 0; i < n; ++i) if (Q(m.a[i] == v)) m.a[i] = nv; break;
   case 3: { ttl::vector<int> d; d.resize(n); int *g = ttl::copy(c.begin(), c.end(), d.begin()); A_(g == d.end(), "all elements copied"); for (int i = 0; i < n; ++i) A_(d[i] == m.a[i], "elements copied in order"); g = ttl::copy_backward(c.begin(), c.end(), d.end()); A_(g == d.begin(), "all elements copied"); for (int i = 0; i < n; ++i) A_(d[i] == m.a[i], "elements copied in order"); break; }
   case 4: { ttl::list<int>::iterator i = ttl::max_element(c.begin(), c.end()); if (n) { bool ok = true; for (int k = 0; k < n; ++k) ok = ok & (m.a[k] <= *i); A_(ok, "max_element is a greatest element"); } else A_(i == c.end(), "nothing to find"); break; }
   }
   int i = 0; for (ttl::list<int>::iterator j = c.begin(); j != c.end(); ++j, ++i) A_(*j == m.a[i], "exactly the defined elements"); A_(i == m.n, "no element lost"); }
   A_(vp_heap_live() == 0, "memory released");
}
#else
VP_ENTRY(m_lists) { }
#endif
struct Acc { unsigned v; Acc(unsigned x = 0): v(x) {} Acc operator+(unsigned x) const { return Acc(v * 7 + x); } Acc operator+(const Acc &o) const { return Acc(v * 7 + o.v); } Acc &operator+=(unsigned x) { v = v * 7 + x; return *this; } };
inline Acc operator+(unsigned x, const Acc &a) { return Acc(x * 7 + a.v); }
VP_ENTRY(m_numeric)
{
   int n = SZ("n", NL + 2); ttl::vector<unsigned> a; unsigned o[400], s = vp_u32("init"), e = s, h = s; for (int i = 0; i < n; ++i) { o[i] = vp_u32("x"); a.push_back(o[i]); e += o[i]; h = h * 7 + o[i]; }
   A_(ttl::accumulate(a.begin(), a.end(), s) == e, "accumulate is the sum of the initial value and all elements"); A_(ttl::accumulate(a.begin(), a.end(), Acc(s)).v == h, "accumulate combines left to right");
   unsigned f = vp_u32("first"); ttl::iota(a.begin(), a.end(), f); bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (a[i] == f + i); A_(ok, "iota writes consecutive values");
   vp_observe(e);
}

// ------------------------------------------------------------ P24
static int g_cmp;
struct CK { int k; CK(int x = 0): k(x) {} };
static bool operator<(const CK &a, const CK &b) { ++g_cmp; return a.k < b.k; }
struct Rev { int *c; bool operator()(const CK &a, const CK &b) const { ++*c; return a.k > b.k; } };
#if RAWPTR > 1
typedef const CK *PK;
#else
typedef CK *PK;
#endif
static int lg(int n) { int r = 0; while (n > 0) { ++r; n /= 2; } return r; }
static void bsearch_case(int n, int op, int cmp, const int *k, PK a, int v)
{
   int lo = 0, hi = 0, c = 0; g_cmp = 0; Rev rv; rv.c = &c; PK z = a + n; CK key(v);
   PK gl = 0, gu = 0; bool gb = false;
   switch (op) {
   case 0: gl = cmp ? ttl::lower_bound(a, z, key, rv) : ttl::lower_bound(a, z, key); break;
   case 1: gu = cmp ? ttl::upper_bound(a, z, key, rv) : ttl::upper_bound(a, z, key); break;
   case 2: { ttl::pair<PK, PK> p = cmp ? ttl::equal_range(a, z, key, rv) : ttl::equal_range(a, z, key); gl = p.first; gu = p.second; break; }
   case 3: gb = cmp ? ttl::binary_search(a, z, key, rv) : ttl::binary_search(a, z, key); break;
   }
   int used = cmp ? c : g_cmp; A_(used <= (op == 2 ? 2 : 1) * (2 * lg(n) + 2), "logarithmically many comparisons"); if (cmp) A_(g_cmp == 0, "only the given comparison is used");
   // the bounds split the range: everything before is ordered before the value, nothing after is
   bool el = gl >= a && gl <= z, eu = gu >= a && gu <= z, ex = false; lo = el ? (int)(gl - a) : 0; hi = eu ? (int)(gu - a) : 0;
   for (int i = 0; i < n; ++i) { el = el & ((cmp ? k[i] > v : k[i] < v) == (i < lo)); eu = eu & ((cmp ? k[i] >= v : k[i] <= v) == (i < hi)); ex = ex | (k[i] == v); }
   if (op == 0 || op == 2) A_(el, "lower bound is the first element not ordered before the value");
   if (op == 1 || op == 2) A_(eu, "upper bound is the first element ordered after the value");
   if (op == 3) A_(gb == ex, "binary_search reports exactly whether an equivalent element exists");
   bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (a[i].k == k[i]); A_(ok, "the range is not modified"); vp_observe(gl ? gl - a : gu ? gu - a : gb);
}
VP_ENTRY(b_search)
{
   int n = SZ("n", NB + 1), op = vp_choice("op", 4), cmp = vp_choice("comparison", 2), v = vp_int("v"); CK *a = new CK[n]; int k[400];
   for (int i = 0; i < n; ++i) { k[i] = vp_int("k"); if (i) vp_assume(cmp ? k[i-1] >= k[i] : k[i-1] <= k[i]); a[i] = CK(k[i]); }
   bsearch_case(n, op, cmp, k, a, v); delete [] a;
}
VP_ENTRY(b_search_big)
{
   #ifdef BIGN
   int n = SZ("n", BIGN + 1);
#else
   static const int sz[] = { 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65 }; int n = sz[SZ("n", 11)];
#endif
   int op = vp_choice("op", 4), cmp = vp_choice("comparison", 2), pat = vp_choice("ties", 3), v = vp_int("v"); CK *a = new CK[n]; int k[400];
   for (int i = 0; i < n; ++i) { int x = pat == 0 ? 2 * i : pat == 1 ? 2 * (i / 3) : 7; k[i] = cmp ? -x : x; a[i] = CK(k[i]); }
   bsearch_case(n, op, cmp, k, a, v); delete [] a;
}

#ifndef HUGED
#define HUGED 4
#endif
// Ranges of many elements with known values; the probe is arbitrary next to any of several places
VP_ENTRY(b_search_huge)
{
#ifdef HUGEN
   static const int sz[] = { 127, 128, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 100000, HUGEN };
#else
   static const int sz[] = { 255, 257, 32769, 65537 };
#endif
   int n = sz[vp_choice("n", sizeof(sz) / sizeof(*sz))], cmp = vp_choice("comparison", 2), tie = vp_choice("ties", 2) ? 3 : 1, sg = cmp ? -1 : 1; CK *a = new CK[n];
   for (int i = 0; i < n; ++i) a[i] = CK(sg * 2 * (i / tie));
   static const int den = HUGED; int at = (int)((long)n * vp_choice("place", den + 1) / den), op = vp_choice("op", 4);
   // values 2 * (i / tie): every probe between the values around the place, both ends included
   int d = vp_int("probe"); vp_assume((d >= -3) & (d <= 3)); int v = 2 * (at / tie) + d; int c = 0; Rev rv; rv.c = &c;
   g_cmp = 0; PK b = a, z = a + n, gl = 0, gu = 0; bool gb = false; CK key(sg * v);
   switch (op) {
   case 0: gl = cmp ? ttl::lower_bound(b, z, key, rv) : ttl::lower_bound(b, z, key); break;
   case 1: gu = cmp ? ttl::upper_bound(b, z, key, rv) : ttl::upper_bound(b, z, key); break;
   case 2: { ttl::pair<PK, PK> p = cmp ? ttl::equal_range(b, z, key, rv) : ttl::equal_range(b, z, key); gl = p.first; gu = p.second; break; }
   case 3: gb = cmp ? ttl::binary_search(b, z, key, rv) : ttl::binary_search(b, z, key); break;
   }
   int used = cmp ? c : g_cmp; A_(used <= (op == 2 ? 2 : 1) * (2 * lg(n) + 2), "logarithmically many comparisons");
   // the first index whose value 2 * (i / tie) is >= v (lower) or > v (upper)
   int l = v <= 0 ? 0 : tie * ((v + 1) / 2), u = v < 0 ? 0 : tie * (v / 2 + 1); l = l > n ? n : l; u = u > n ? n : u;
   if (op == 0 || op == 2) A_(gl - b == l, "lower bound is the first element not ordered before the value");
   if (op == 1 || op == 2) A_(gu - b == u, "upper bound is the first element ordered after the value");
   if (op == 3) A_(gb == (l < u), "binary_search reports exactly whether an equivalent element exists");
   vp_observe(gl ? gl - b : gu ? gu - b : gb); delete [] a;
}

// ------------------------------------------------------------ P25
struct KI { int k, id; KI(int a = 0, int b = 0): k(a), id(b) {} };
static bool operator<(const KI &a, const KI &b) { return a.k < b.k; }
#ifdef VP_PERMISSIVE
static bool operator>(const KI &a, const KI &b) { return a.k > b.k; }
static bool operator<=(const KI &a, const KI &b) { return a.k <= b.k; }
static bool operator>=(const KI &a, const KI &b) { return a.k >= b.k; }
static bool operator==(const KI &a, const KI &b) { return a.k == b.k; }
static bool operator!=(const KI &a, const KI &b) { return a.k != b.k; }
#endif
struct KGr { bool operator()(const KI &a, const KI &b) const { return a.k > b.k; } };
VP_ENTRY(o_merge)
{
   int n = SZ("n", NL + 1), m = SZ("m", NS + 1); KI *a = new KI[n], *b = new KI[m], *d = new KI[n + m + 1]; int ka[400], kb[400];
   int wa = window(n), wb = window(m);
   for (int i = 0; i < n; ++i) { ka[i] = i >= wa && i < wa + WINL ? vp_int("a") : 10 * i; if (i) vp_assume(ka[i-1] <= ka[i]); a[i] = KI(ka[i], i); }
   for (int i = 0; i < m; ++i) { kb[i] = i >= wb && i < wb + WINL ? vp_int("b") : 10 * i - i % 2; if (i) vp_assume(kb[i-1] <= kb[i]); b[i] = KI(kb[i], 1000 + i); }
   d[n + m] = KI(77, -5);
   FI<KI> g = ttl::merge(mkF(a, a, a + n), mkF(a + n, a, a + n), mkF(b, b, b + m), mkF(b + m, b, b + m), mkF(d, d, d + n + m));
   A_(raw(g) == d + n + m, "merge returns the end of what it wrote");
   int i = 0, j = 0; for (int q = 0; q < n + m; ++q) { bool tb = i >= n || (j < m && Q(kb[j] < ka[i])); A_(tb ? (d[q].id == 1000 + j) & (d[q].k == kb[j]) : (d[q].id == i) & (d[q].k == ka[i]), "merge is the stable interleaving of the two ranges"); if (tb) ++j; else ++i; vp_observe(d[q].id); }
   A_(d[n + m].id == -5, "nothing is written behind the result"); bool ok = true; for (i = 0; i < n; ++i) ok = ok & (a[i].k == ka[i]); for (j = 0; j < m; ++j) ok = ok & (b[j].k == kb[j]); A_(ok, "the sources are not modified");
   delete [] a; delete [] b; delete [] d;
}
VP_ENTRY(o_sorted)
{
   IA r(SZ("n", NL + 3), "x"); SI<int> g = ttl::is_sorted_until(r.sb(), r.se()); int i = 0; if (r.n) { i = 1; while (i < r.n && !Q(r.o[i] < r.o[i-1])) ++i; }
   A_(g == r.fi(i), "is_sorted_until returns the first element out of order or the end"); A_(ttl::is_sorted(r.sb(), r.se()) == (i == r.n), "is_sorted"); r.same(); vp_observe(i);
}
VP_ENTRY(o_is_sorted) { IA r(SZ("n", NL + 3), "x"); bool g = ttl::is_sorted(r.sb(), r.se()), e = true; for (int i = 1; i < r.n; ++i) e = e & !(r.o[i] < r.o[i-1]); A_(g == e, "is_sorted"); r.same(); }
VP_ENTRY(o_minmax)
{
   KI a(vp_int("a"), 1), b(vp_int("b"), 2); bool cmp = vp_choice("comparison", 2); bool ba = cmp ? b.k > a.k : b.k < a.k, ab = cmp ? a.k > b.k : a.k < b.k; KGr g;
   switch (vp_choice("op", 3)) {
   case 0: { const KI &r = cmp ? ttl::min(a, b, g) : ttl::min(a, b); A_(&r == (Q(ba) ? &b : &a), "min is the smaller; the first of equivalent ones"); break; }
   case 1: { const KI &r = cmp ? ttl::max(a, b, g) : ttl::max(a, b); A_(&r == (Q(ab) ? &b : &a), "max is the greater; the first of equivalent ones"); break; }
   case 2: { ttl::pair<const KI &, const KI &> r = cmp ? ttl::minmax(a, b, g) : ttl::minmax(a, b); A_(&r.first == (Q(ba) ? &b : &a) && &r.second == (Q(ba) ? &a : &b), "minmax is the ordered pair; in the given order if equivalent"); break; }
   }
}
VP_ENTRY(o_minmax_element)
{
   IA r(SZ("n", NL + 2), "x"); int lo = 0, hi = 0; ttl::pair<SI<int>, SI<int> > p = ttl::minmax_element(r.sb(), r.se()); if (!r.n) { A_(p.first == r.se() && p.second == r.se(), "nothing to find"); return; }
   for (int i = 1; i < r.n; ++i) { if (Q(r.o[i] < r.o[lo])) lo = i; if (Q(r.o[hi] < r.o[i])) hi = i; }
   A_(p.first == r.fi(lo), "minmax_element: the first smallest element"); A_(*p.second == r.o[hi], "minmax_element: a greatest element"); r.same();
}
VP_ENTRY(o_min_element) { IA r(SZ("n", NL + 2), "x"); SI<int> g = ttl::min_element(r.sb(), r.se()); int j = 0; for (int i = 1; i < r.n; ++i) if (Q(r.o[i] < r.o[j])) j = i; A_(g == r.fi(j), "min_element: the first smallest element"); r.same(); }
VP_ENTRY(o_max_element) { IA r(SZ("n", NL + 2), "x"); SI<int> g = ttl::max_element(r.sb(), r.se()); int j = 0; for (int i = 1; i < r.n; ++i) if (Q(r.o[j] < r.o[i])) j = i; A_(g == r.fi(j), "max_element: the first greatest element"); r.same(); }
