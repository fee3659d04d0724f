// Containers and ranges beyond 255 and 65535 elements: known values except a few, so that nothing counts or indexes in a narrower type.
#include "common.h"
#ifndef MANY
#define MANY 300, 65537
#endif
#ifndef SOME
#define SOME 256, 300
#endif
static const int many[] = { MANY }, some[] = { SOME };
#define PICK(t) t[vp_choice("n", sizeof(t) / sizeof(*t))]
static int kth(int n) { switch (vp_choice("pos", 5)) { case 0: return 0; case 1: return n > 0 ? n - 1 : 0; case 2: return n; case 3: return 255; default: return n / 2; } }
static int at(int i) { return i * 3 + 1; }
struct Ref { // the sequence as pieces: at(0..n) with one piece replaced: [p, q) of the original by k copies of x
   int n, p, q, k, x; Ref(int n): n(n), p(0), q(0), k(0), x(0) {}
   void sub(int a, int b, int c, int v) { p = a; q = b; k = c; x = v; }
   int size() const { return n - (q - p) + k; }
   int operator[](int i) const { return i < p ? at(i) : i < p + k ? x : at(i - k + (q - p)); }
};
template<class C> static void seq(C &c, const Ref &r, const char *m)
{
   A_((int)c.size() == r.size(), "size agrees"); bool ok = true; int j = 0, z = r.size();
   for (typename C::const_iterator i = static_cast<const C &>(c).begin(); i != static_cast<const C &>(c).end(); ++i, ++j) { if (j >= r.p && j < r.p + r.k) A_(*i == r.x, m); else if (!((*i == r[j]))) { ok = false; break; } if (j > z) break; }
   A_(ok && j == z, m); A_(c.empty() == (z == 0), "empty agrees");
}
#define VEC "element values agree with the abstract sequence"
typedef ttl::vector<int> V;
typedef ttl::fixed_vector<int, 70000> FV;
template<class C> static void vec(int n, int cap)
{
   { C v; v.reserve(cap); for (int i = 0; i < n; ++i) v.push_back(at(i)); Ref r(n); int x = vp_int("x"), p;
   switch (vp_choice("op", 11)) {
   case 0: v.push_back(x); r.sub(n, n, 1, x); break;
   case 1: p = kth(n); { int *i = v.insert(v.begin() + p, x); A_(i - v.begin() == p, "insert returns the position"); } r.sub(p, p, 1, x); break;
   case 2: p = kth(n); { int k = vp_choice("count", 2) ? 2 : 256; int *i = v.insert(v.begin() + p, (ttl::size_t)k, x); A_(i - v.begin() == p, "insert returns the position"); r.sub(p, p, k, x); } break;
   case 3: p = kth(n - 1); { int *i = v.erase(v.begin() + p); A_(i - v.begin() == p, "erase returns the position"); } r.sub(p, p + 1, 0, 0); break;
   case 4: p = kth(n); { int *i = v.erase(v.begin() + p / 2, v.begin() + p); A_(i - v.begin() == p / 2, "erase returns the position"); } r.sub(p / 2, p, 0, 0); break;
   case 5: v.resize(n + 2, x); r.sub(n, n, 2, x); break;
   case 6: v.resize(256); r.sub(256, n, 0, 0); break;
   case 7: { C w(v); A_(w == v && !(w != v), "a copy is equal"); w[n - 1] = -5; A_(w != v, "a differing last element makes it unequal"); v[n / 2] = x; r.sub(n / 2, n / 2 + 1, 1, x); break; }
   case 8: v.assign((ttl::size_t)(n + 1), 7); A_((int)v.size() == n + 1 && v.back() == 7 && v[0] == 7, "assign sets the number of elements"); v.pop_back(); v.clear(); A_(v.empty() && v.size() == 0, "nothing left"); for (int i = 0; i < n; ++i) v.push_back(at(i)); break;
   case 9: { C w; w = v; w.swap(v); A_(w == v, "an assigned copy is equal"); w.pop_back(); A_((int)w.size() == n - 1 && (int)v.size() == n, "independent copies"); break; }
   case 10: { V w; w.reserve(n); for (int i = 0; i < n; ++i) w.push_back(at(i)); p = n > 1000 ? n - 3 : kth(n); v.insert(v.begin() + p, w.begin(), w.begin() + 256); A_((int)v.size() == n + 256 && v[p + 255] == at(255) && v[p] == at(0), "range insert"); v.erase(v.begin() + p, v.begin() + p + 256); v.assign(w.begin(), w.end()); break; }
   }
   A_((int)v.capacity() >= (int)v.size(), "size never exceeds capacity"); seq(v, r, VEC); }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_huge) { int n = PICK(many); vec<V>(n, vp_choice("spare", 2) ? n + 300 : n); }
struct Fx: FV { void reserve(int) {} };
VP_ENTRY(fixed_huge) { int n = PICK(many); if (vp_choice("full", 2)) { { FV *v = new FV; for (int i = 0; i < 70000; ++i) v->push_back(at(i)); A_(v->full() && v->size() == 70000, "full"); v->push_back(1); v->insert(v->begin() + 5, 2); A_(v->size() == 70000 && (*v)[69999] == at(69998) && (*v)[5] == 2, "what does not fit is dropped"); delete v; } A_(vp_heap_live() == 0, "released"); } else vec<Fx>(n, 0); }
// node based sequences
typedef ttl::list<int> L; typedef ttl::forward_list<int> FL; typedef ttl::backward_list<int> BL; typedef ttl::lazy_queue<int> Q;
template<class C> static void build(C &c, int n) { for (int i = 0; i < n; ++i) c.push_back(at(i)); }
template<> void build<FL>(FL &c, int n) { for (int i = n; i > 0; --i) c.push_front(at(i - 1)); }
template<class C> static int count(const C &c) { int n = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) ++n; return n; }
template<class C> static void nodes(C &c, const Ref &r)
{
   bool ok = true; int j = 0, z = r.size(); const C &cc = c;
   for (typename C::const_iterator i = cc.begin(); i != cc.end(); ++i, ++j) { if (j >= r.p && j < r.p + r.k) A_(*i == r.x, VEC); else if (!((*i == r[j]))) { ok = false; break; } if (j > z) break; }
   A_(ok && j == z, VEC); A_(c.empty() == (z == 0), "empty agrees");
}
VP_ENTRY(list_huge)
{
   int n = PICK(some); { L c; build(c, n); Ref r(n); int x = vp_int("x"), p = kth(n); A_((int)c.size() == n, "size counts every element");
   L::iterator i = c.begin(); for (int k = 0; k < p; ++k) ++i;
   switch (vp_choice("op", 12)) {
   case 0: c.insert(i, x); r.sub(p, p, 1, x); break;
   case 1: c.insert(i, (ttl::size_t)257, x); r.sub(p, p, 257, x); break;
   case 2: if (p < n) { c.erase(i); r.sub(p, p + 1, 0, 0); } break;
   case 3: c.resize(257, x); if (n < 257) r.sub(n, n, 257 - n, x); else r.sub(257, n, 0, 0); break;
   case 4: { L d(c); A_(d == c, "a copy is equal"); d.back() = -1; A_(d != c, "a differing last element makes it unequal"); break; }
   case 5: { L d; d.splice(d.begin(), c); A_(c.empty() && (int)d.size() == n, "splice moves every element"); c.swap(d); break; }
   case 6: { L d; for (int k = 0; k < 256; ++k) d.push_back(x); d.unique(); A_(d.size() == 1, "unique leaves one of equal neighbours"); c.reverse(); c.reverse(); break; }
   case 7: c.assign((ttl::size_t)257, x); r = Ref(0); r.sub(0, 0, 257, x); break;
   case 8: { L d; d.push_back(x); bool lo = vp_concretize(x < at(0)), hi = vp_concretize(x >= at(n - 1)); vp_assume(lo | hi | (x == at(n / 2))); c.merge(d); A_(d.empty(), "merging takes every element"); p = lo ? 0 : hi ? n : n / 2 + 1; r.sub(p, p, 1, x); break; }
   case 9: { L d; for (int k = 0; k < n; ++k) d.push_back(at(k)); d.push_back(x); vp_assume(x >= at(n - 1)); c.merge(d); A_(d.empty() && (int)c.size() == 2 * n + 1, "merging takes every element"); c.unique(); A_((int)c.size() == n + !vp_concretize(x == at(n - 1)), "unique leaves one of equal neighbours"); if ((int)c.size() > n) r.sub(n, n, 1, x); break; }
   case 10: { for (int k = 0; k < 257; ++k) c.push_front(x); bool in = vp_concretize((x >= at(0)) & (x <= at(n - 1))); vp_assume(!in); c.remove(x); break; }
   case 11: { c.reverse(); int k = n; bool ok = true; for (L::iterator q = c.begin(); q != c.end(); ++q) if (!((*q == at(--k)))) { ok = false; break; } A_(ok && k == 0, "reverse puts every element into its place"); c.reverse(); break; }
   }
   A_((int)c.size() == r.size(), "size agrees"); nodes(c, r); } A_(vp_heap_live() == 0, "all memory released");
}
template<class C> static void singly()
{
   int n = PICK(some); { C c; build(c, n); Ref r(n); int x = vp_int("x"), p = kth(n); nodes(c, r); A_(c.front() == at(0), "front is the first element");
   typename C::iterator i = c.before_begin(); for (int k = 0; k < p; ++k) ++i;
   switch (vp_choice("op", 5)) {
   case 0: c.insert_after(i, x); r.sub(p, p, 1, x); break;
   case 1: c.insert_after(i, (ttl::size_t)257, x); r.sub(p, p, 257, x); break;
   case 2: if (p < n) { c.erase_after(i); r.sub(p, p + 1, 0, 0); } break;
   case 3: { C d(c); A_(count(d) == n, "a copy has every element"); d.clear(); d = c; nodes(d, r); c.swap(d); break; }
   case 4: c.assign((ttl::size_t)257, x); r = Ref(0); r.sub(0, 0, 257, x); break;
   }
   nodes(c, r); } A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(fwd_huge) { singly<FL>(); }
VP_ENTRY(back_huge) { singly<BL>(); }
VP_ENTRY(lazy_huge)
{
   int n = PICK(some); { Q c; build(c, n); Ref r(n); int x = vp_int("x"); nodes(c, r); A_(c.front() == at(0) && c.back() == at(n - 1), "front and back");
   switch (vp_choice("op", 4)) {
   case 0: c.push_back(x); r.sub(n, n, 1, x); break;
   case 1: { int k = kth(n); for (int i = 0; i < k; ++i) c.pop_front(); r.sub(0, k, 0, 0); break; }
   case 2: { long a = vp_heap_allocs(); for (int i = 0; i < n; ++i) c.pop_front(); A_(c.empty(), "everything popped"); for (int i = 0; i < n; ++i) c.push_back(at(i)); A_(vp_heap_allocs() == a, "popped nodes are reused before new memory is taken"); for (int i = 0; i < n; ++i) c.pop_front(); c.cleanup(); A_(vp_heap_live() == 0, "cleanup releases every unused node"); r = Ref(0); break; }
   case 3: { Q d(c); nodes(d, r); d.push_front(x); c.swap(d); r.sub(0, 0, 1, x); break; }
   }
   nodes(c, r); } A_(vp_heap_live() == 0, "all memory released");
}
// maps of many known keys; probes and edits with any key next to one of several places
typedef ttl::vector_map<int, int> VM; typedef ttl::sorted_vector_map<int, int> SM; typedef ttl::map<int, int> TM; typedef ttl::set<int> TS;
static int nearkey(int n) { int d = vp_int("key"); vp_assume((d >= -2) & (d <= 2)); return 2 * kth(n) + d; }
template<class C> static int len(C &c) { return (int)c.size(); }
template<class C> static int walk(C &c) { int n = 0; for (typename C::iterator i = c.begin(); i != c.end() && n < 100000; ++i) ++n; return n; }
template<> int len<TM>(TM &c) { return walk(c); }
template<> int len<TS>(TS &c) { return walk(c); }
template<class C> static void put(C &c, int k, int v) { c.insert(typename C::value_type(k, v)); }
template<class C> static void maps(bool sorted)
{
   int n = PICK(some); { C c; for (int i = 0; i < n; ++i) put(c, 2 * i, at(i)); int k = nearkey(n), x = vp_int("x");
   bool f = vp_concretize((k >= 0) & (k < 2 * n) & !(k & 1)); const C &cc = c; A_(len(c) == n, "size agrees");
   switch (vp_choice("op", 4)) {
   case 0: { typename C::iterator i = c.find(k); typename C::const_iterator j = cc.find(k); A_((i != c.end()) == f && (j != cc.end()) == f, "find reports exactly whether the key is present"); if (f) A_((i->first == k) & (i->second == k / 2 * 3 + 1) & (j->first == k), "find returns the element of the key"); A_((int)cc.count(k) == f, "count is one exactly for a present key"); break; }
   case 1: { ttl::pair<typename C::iterator, bool> r = c.insert(typename C::value_type(k, x)); A_(r.second == !f, "insert reports whether the key is new"); A_((r.first->first == k) & (r.first->second == (f ? k / 2 * 3 + 1 : x)), "insert returns the element of the key"); A_(len(c) == n + !f, "size agrees"); break; }
   case 2: { c[k] = x; typename C::iterator i = c.find(k); A_(i != c.end() && i->second == x, "a stored value is found"); A_(len(c) == n + !f, "size agrees"); break; }
   case 3: { C d(c); d[k] = x; A_(len(d) == n + !f && len(c) == n, "a copy is independent"); A_((c.find(k) != c.end()) == f, "a copy is independent"); break; }
   }
   int j = 0; bool ok = true; for (typename C::iterator i = c.begin(); i != c.end(); ++i, ++j) { if (j > n + 1) break; }
   A_(j == len(c), "iteration visits every element"); for (int i = 0; i < n; i += 5) { typename C::iterator q = c.find(2 * i); A_(q != c.end() && q->first == 2 * i, "no element is lost"); (void)ok; } (void)sorted; }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vmap_huge) { maps<VM>(false); }
VP_ENTRY(smap_huge) { maps<SM>(true); }
VP_ENTRY(map_huge) { maps<TM>(true); }
VP_ENTRY(set_huge)
{
   int n = PICK(some); { TS c; for (int i = 0; i < n; ++i) c.insert(2 * i); int k = nearkey(n); bool f = vp_concretize((k >= 0) & (k < 2 * n) & !(k & 1));
   A_(len(c) == n, "size agrees");
   switch (vp_choice("op", 3)) {
   case 0: { TS::iterator b = c.lower_bound(k), u = c.upper_bound(k); int l = k <= 0 ? 0 : (k + 1) / 2, h = k < 0 ? 0 : k / 2 + 1; A_(l >= n ? b == c.end() : b != c.end() && *b == 2 * l, "lower bound"); A_(h >= n ? u == c.end() : u != c.end() && *u == 2 * h, "upper bound"); break; }
   case 1: A_(c.insert(k).second == !f, "insert reports whether the key is new"); A_(len(c) == n + !f && c.find(k) != c.end(), "the key is present"); break;
   case 2: { TS d(c); A_(d == c, "a copy is equal"); d.erase(k); A_(len(d) == n - f && d.find(k) == d.end() && (d == c) == !f, "the key is gone from the copy"); A_(len(c) == n, "a copy is independent"); break; }
   }
   int j = 0, last = -5; bool ok = true; for (TS::iterator i = c.begin(); i != c.end(); ++i, ++j) { if (!((*i > last))) { ok = false; break; } last = *i; } A_(ok && j == len(c), "iteration is in order and complete"); }
   A_(vp_heap_live() == 0, "all memory released");
}
// algorithms over long ranges
struct Odd { bool operator()(int x) const { return x & 1; } };
struct Any { bool operator()(int) const { return true; } };
struct Even { bool operator()(int x) const { return !(x & 1); } };
struct Count { int n; Count(): n(0) {} void operator()(int) { ++n; } };
VP_ENTRY(find_huge)
{
   int n = PICK(many); int *a = new int[n + 1], p = kth(n - 1), x = vp_int("x"); for (int i = 0; i <= n; ++i) a[i] = 4; bool e = vp_concretize(x == 4); a[p] = x; const int *b = a, *z = a + n; bool o = vp_concretize((x & 1) != 0);
   switch (vp_choice("op", 14)) {
   case 0: A_(ttl::find(b, z, 9) == (vp_concretize(x == 9) ? b + p : z), "find returns the first equal element or the end"); break;
   case 1: A_(ttl::find_if(b, z, Odd()) == (o ? b + p : z), "find_if returns the first element the predicate accepts or the end"); break;
   case 2: A_(ttl::count(b, z, 4) == n - !e, "count counts the equal elements"); A_(ttl::count_if(b, z, Any()) == n, "count_if counts the accepted elements"); break;
   case 3: A_(ttl::search_n(b, z, n, 4) == (e ? b : z), "search_n returns the first run of count matching elements or the end"); break;
   case 4: { int w[2] = { 4, x }; A_(ttl::search(b, z, (const int *)w, (const int *)w + 2) == (e ? b : p > 0 ? b + p - 1 : z), "search returns the first occurrence"); break; }
   case 5: { int *c = new int[n]; for (int i = 0; i < n; ++i) c[i] = 4; A_(ttl::equal(b, z, (const int *)c) == e && ttl::equal(b, z, (const int *)c, (const int *)c + n) == e, "equal compares all elements"); A_(!ttl::equal(b, z, (const int *)c, (const int *)c + n - 1), "equal compares lengths"); A_(ttl::mismatch(b, z, (const int *)c).first == (e ? z : b + p), "mismatch returns the first differing positions"); delete [] c; break; }
   case 6: A_(ttl::all_of(b, z, Odd()) == false && ttl::any_of(b, z, Odd()) == o && ttl::none_of(b, z, Odd()) == !o, "quantifiers"); break;
   case 7: { const int *m = ttl::max_element(b, z), *q = ttl::min_element(b, z); A_(m == (vp_concretize(x > 4) ? b + p : p || vp_concretize(x == 4) ? b : b + 1), "max_element: the first greatest"); A_(q == (vp_concretize(x < 4) ? b + p : p || vp_concretize(x == 4) ? b : b + 1), "min_element: the first smallest"); break; }
   case 8: { bool s = vp_concretize(p == n - 1 ? x >= 4 : p == 0 ? x <= 4 : x == 4); A_(ttl::is_sorted(b, z) == s, "is_sorted"); break; }
   case 9: A_(ttl::find_if_not(b, z, Any()) == z, "find_if_not returns the first element the predicate rejects or the end"); A_(ttl::find_if_not(b, z, Even()) == (o ? b + p : z), "find_if_not returns the first element the predicate rejects or the end"); break;
   case 10: { for (int i = 0; i < n; ++i) if (i != p) a[i] = 4 + i % 2; bool q = p > 0 && vp_concretize(a[p-1] == x), w = p < n - 1 && vp_concretize(a[p+1] == x); A_(ttl::adjacent_find(b, z) == (q ? b + p - 1 : w ? b + p : z), "adjacent_find returns the first of the first equal neighbours"); break; }
   case 11: { int *c = new int[n]; for (int i = 0; i < n; ++i) c[i] = 4; ttl::pair<const int *, const int *> m = ttl::mismatch(b, z, (const int *)c); A_(m.first == (e ? z : b + p) && m.second - c == m.first - b, "mismatch returns the first differing positions"); m = ttl::mismatch(b, z, (const int *)c, (const int *)c + n - 1); A_(m.first == (e || p == n - 1 ? z - 1 : b + p) && m.second - c == m.first - b, "mismatch returns the first differing positions"); delete [] c; break; }
   case 12: { ttl::pair<const int *, const int *> m = ttl::minmax_element(b, z); A_(*m.second == (vp_concretize(x > 4) || n == 1 ? x : 4) && m.first == (vp_concretize(x < 4) ? b + p : p || vp_concretize(x == 4) ? b : b + 1), "minmax_element"); break; }
   case 13: { bool lt = vp_concretize(x < 4), gt = vp_concretize(x > 4); A_(ttl::is_sorted_until(b, z) == (lt && p > 0 ? b + p : gt && p < n - 1 ? b + p + 1 : z), "is_sorted_until returns the first element below its predecessor"); int c = ttl::for_each(b, z, Count()).n; A_(c == n, "for_each visits every element"); break; }
   }
   delete [] a; A_(vp_heap_live() == 0, "all memory released");
}
struct Half { int operator()(int x) const { return x / 2; } };
struct Add { int operator()(int x, int y) const { return x + y; } };
struct Step { unsigned v; Step(int x): v(x) {} int operator()() { return (int)v++; } };
VP_ENTRY(copy_huge)
{
   int n = PICK(many); int *a = new int[n + 2], *d = new int[n + 2], *e; for (int i = 0; i < n + 2; ++i) a[i] = at(i), d[i] = -7; bool ok = true; int w = n, v = vp_int("v");
   switch (vp_choice("op", 16)) {
   case 0: e = ttl::copy(a, a + n, d); A_(e == d + n, "copy returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == at(i)))) { ok = false; break; } break;
   case 1: e = ttl::copy_n(a, n, d); A_(e == d + n, "copy_n returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == at(i)))) { ok = false; break; } break;
   case 2: e = ttl::copy_backward(a, a + n, d + n); A_(e == d, "copy_backward returns the begin"); for (int i = 0; i < n; ++i) if (!((d[i] == at(i)))) { ok = false; break; } break;
   case 3: ttl::fill(d, d + n, 8); e = ttl::fill_n(d, n - 1, 9); A_(e == d + n - 1, "fill_n returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == (i == n - 1 ? 8 : 9)))) { ok = false; break; } break;
   case 4: e = ttl::reverse_copy(a, a + n, d); A_(e == d + n, "reverse_copy returns the end"); ttl::reverse(d, d + n); for (int i = 0; i < n; ++i) if (!((d[i] == at(i)))) { ok = false; break; } break;
   case 5: e = ttl::remove_copy_if(a, a + n, d, Odd()); w = (int)(e - d); A_(w == n / 2, "remove_copy_if keeps the others"); for (int i = 0; i < w; ++i) if (!((d[i] == at(2 * i + 1)))) { ok = false; break; } break;
   case 6: if (n > 1000) v = at(n / 2); a[n / 2] = v; { int *k = ttl::remove(a, a + n, v); A_(k == a + n - 1 || !vp_concretize((v < 0) | (v > at(n)) | (v % 3 != 1)), "remove returns the end of the kept elements"); } w = 0; break;
   case 7: ttl::swap_ranges(a, a + n, d); for (int i = 0; i < n; ++i) if (!((d[i] == at(i)) && (a[i] == -7))) { ok = false; break; } break;
   case 8: e = ttl::copy_if(a, a + n, d, Odd()); w = (int)(e - d); A_(w == (n + 1) / 2, "copy_if keeps the accepted elements"); for (int i = 0; i < w; ++i) if (!((d[i] == at(2 * i)))) { ok = false; break; } break;
   case 9: e = ttl::transform(a, a + n, d, Half()); A_(e == d + n, "transform returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == at(i) / 2))) { ok = false; break; } e = ttl::transform(a, a + n, (const int *)d, d, Add()); A_(e == d + n, "transform returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == at(i) + at(i) / 2))) { ok = false; break; } break;
   case 10: a[n / 2] = v; ttl::replace_if(a, a + n, Odd(), -9); for (int i = 0; i < n; ++i) if (i == n / 2) { if (!((a[i] == ((v & 1) ? -9 : v)))) { ok = false; break; } } else if (!((a[i] == (at(i) & 1 ? -9 : at(i))))) { ok = false; break; } w = 0; break;
   case 11: e = ttl::replace_copy(a, a + n, d, at(n - 1), v); A_(e == d + n, "replace_copy returns the end"); for (int i = 0; i < n; ++i) if (!((d[i] == (i == n - 1 ? v : at(i))))) { ok = false; break; } break;
   case 12: { int *k = ttl::remove_if(a, a + n, Odd()); A_(k == a + n / 2, "remove_if returns the end of the kept elements"); for (int i = 0; i < n / 2; ++i) if (!((a[i] == at(2 * i + 1)))) { ok = false; break; } w = 0; break; }
   case 13: ttl::generate(d, d + n, Step(v)); for (int i = 0; i < n; ++i) if (!(((unsigned)d[i] == (unsigned)v + i))) { ok = false; break; } break;
   case 14: ttl::iota(d, d + n, 5); for (int i = 0; i < n; ++i) if (!((d[i] == 5 + i))) { ok = false; break; } A_(ttl::accumulate(d, d + n, 1L) == 1L + 5L * n + (long)n * (n - 1) / 2, "accumulate adds up every element"); break;
   case 15: a[n - 1] = v; e = ttl::remove_copy(a, a + n, d, at(0)); w = n - 1 - vp_concretize(v == at(0)); A_(e == d + w, "remove_copy returns the end"); for (int i = 0; i < w; ++i) if (!((d[i] == (i == n - 2 ? v : at(i + 1))))) { ok = false; break; } break;
   }
   for (int i = w; i < n + 2; ++i) if (!((d[i] == -7))) { ok = false; break; } A_(ok, "exactly the defined elements are written to exactly the defined places"); delete [] a; delete [] d; A_(vp_heap_live() == 0, "all memory released");
}
struct KI { int k, id; KI(int a = 0, int b = 0): k(a), id(b) {} };
static bool operator<(const KI &a, const KI &b) { return a.k < b.k; }
VP_ENTRY(merge_huge)
{
   int n = PICK(many), m = vp_choice("second", 2) ? 3 : n; KI *a = new KI[n], *b = new KI[m], *d = new KI[n + m]; for (int i = 0; i < n; ++i) a[i] = KI(2 * i, i); for (int i = 0; i < m; ++i) b[i] = KI(2 * (m == 3 ? i + n - 2 : i), 100000 + i);
   KI *e = ttl::merge(a, a + n, b, b + m, d); A_(e == d + n + m, "merge returns the end of what it wrote"); int i = 0, j = 0; bool ok = true;
   for (int q = 0; q < n + m; ++q) { bool t = i >= n || (j < m && b[j].k < a[i].k); if (!((t ? d[q].id == b[j].id : d[q].id == a[i].id))) { ok = false; break; } if (t) ++j; else ++i; } A_(ok, "merge is the stable interleaving of the two ranges");
   delete [] a; delete [] b; delete [] d;
}

// bitsets and arrays of many elements
enum { BN = 66000 };
typedef ttl::bitset<BN> BB;
static bool bit(int i) { return i % 7 == 3 || i % 64 == 63; }
static const int bpos[] = { 0, 63, 64, 255, 256, 16383, 16384, 32768, 65535, 65536, BN - 1 };
struct BM { bool (*f)(int); int p; bool v; };     // f with one bit replaced
static void bsame(const BB &b, int p, bool v, const char *m) { bool ok = true; for (int i = 0; i < BN; ++i) if (i == p) A_(b.test(i) == v, m); else if (!((b.test(i) == bit(i)))) { ok = false; break; } A_(ok, m); }
VP_ENTRY(bits_huge)
{
   BB *b = new BB, *c = new BB; for (int i = 0; i < BN; ++i) if (bit(i)) b->set(i); int n = 0; for (int i = 0; i < BN; ++i) n += bit(i);
   bool x = vp_bool("x"); int p = bpos[vp_choice("p", sizeof(bpos) / sizeof(*bpos))]; int d = (int)x - (int)bit(p);
   switch (vp_choice("op", 11)) {
   case 0: b->set(p, x); bsame(*b, p, x, "exactly the addressed bit changes"); A_((int)b->count() == n + d, "count is the number of set bits"); break;
   case 1: (*b)[p] = x; bsame(*b, p, x, "exactly the addressed bit changes"); A_((*b)[p] == x && static_cast<const BB *>(b)->operator[](p) == x, "subscript reads the bit"); break;
   case 2: if (vp_concretize(x)) b->flip(p); else { b->reset(p); b->set(p, !bit(p)); } bsame(*b, p, !bit(p), "exactly the addressed bit changes"); break;
   case 3: A_(!c->any() && c->none() && c->count() == 0, "a new bitset is all zero"); c->set(p, x); A_(c->any() == x && c->none() == !x && !c->all(), "any and none see every bit"); c->set(); A_(c->all() && c->count() == BN, "all see every bit"); c->set(p, x); A_(c->all() == x, "all sees every bit"); break;
   case 4: *c = *b; A_(*c == *b && !(*c != *b), "copies are equal"); c->set(p, x); A_((*c == *b) == (x == bit(p)), "a single differing bit makes them unequal"); break;
   case 5: { *c = ~*b; bool ok = true; for (int i = 0; i < BN; ++i) if (!((c->test(i) != bit(i)))) { ok = false; break; } A_(ok && (int)c->count() == BN - n, "complement"); break; }
   case 6: { c->set(p); *c &= *b; A_(c->count() == (unsigned)bit(p) && c->test(p) == bit(p), "and"); *c |= *b; A_(*c == *b, "or"); *c ^= *b; A_(c->none(), "exclusive or"); break; }
   case 7: { b->set(BN - 1 - p, x); *c = *b << p; bool ok = true; for (int i = 0; i < BN; ++i) if (i == BN - 1) A_(c->test(i) == x, "left shift"); else if (!((c->test(i) == (i >= p && bit(i - p))))) { ok = false; break; } A_(ok, "left shift"); *b <<= p; A_(*b == *c, "left shift-assignment"); break; }
   case 8: { b->set(p, x); *c = *b >> p; bool ok = true; for (int i = 0; i < BN; ++i) if (!i) A_(c->test(0) == x, "right shift"); else if (!((c->test(i) == (i + p < BN && bit(i + p))))) { ok = false; break; } A_(ok, "right shift"); *b >>= p; A_(*b == *c, "right shift-assignment"); break; }
   case 9: { ttl::bitset<70000> *w = new ttl::bitset<70000>; w->set(); b->set(p, x); *w = *b; bool ok = true; for (int i = 0; i < 70000; ++i) if (i == p) A_(w->test(i) == x, "assigned from another width"); else if (!((w->test(i) == (i < BN && bit(i))))) { ok = false; break; } A_(ok, "assigned from another width: the bits that fit, zero above"); *c = *w; A_(*c == *b, "and back"); delete w; break; }
   case 10: { char *t = new char[BN + 2]; for (int i = 0; i < BN; ++i) t[i] = bit(BN - 1 - i) ? '1' : '0'; t[BN] = 0; t[BN - 1 - p] = (char)('0' + x); BB *w = new BB(t); bsame(*w, p, x, "constructed from a string"); t[BN] = '1'; t[BN + 1] = 0; delete w; w = new BB(t); bsame(*w, p, x, "of a string longer than the width the first characters count"); delete w; delete [] t; break; }
   }
   delete b; delete c; A_(vp_heap_live() == 0, "all memory released");
}
template<int N> static void arrays()
{
   typedef ttl::array<int, N> AR; AR *a = new AR(), *b = new AR(); int x = vp_int("x"), p = kth(N - 1); for (int i = 0; i < N; ++i) (*a)[i] = at(i); bool ok = true;
   switch (vp_choice("op", 4)) {
   case 0: *b = *a; A_(*b == *a && !(*b != *a), "copies are equal"); (*b)[p] = x; A_((*b == *a) == (x == at(p)), "a single differing element makes them unequal"); break;
   case 1: b->fill(x); for (int i = 0; i < N; ++i) if (!(((*b)[i] == x))) { ok = false; break; } A_(ok, "fill sets every element"); break;
   case 2: b->fill(x); (*b)[p] = -1; b->swap(*a); for (int i = 0; i < N; ++i) if (!(((*b)[i] == at(i)) && ((*a)[i] == (i == p ? -1 : x)))) { ok = false; break; } A_(ok, "swap exchanges every element"); b->swap(*a); break;
   case 3: A_(a->size() == N && a->end() - a->begin() == N && a->front() == at(0) && a->back() == at(N - 1) && a->data() == &(*a)[0], "size and ends"); (*a)[p] = x; A_(a->begin()[p] == x && (*static_cast<const AR *>(a))[p] == x, "what was stored is read"); (*a)[p] = at(p); break;
   }
   ok = true; for (int i = 0; i < N; ++i) if (!(((*a)[i] == at(i)))) { ok = false; break; } A_(ok, "the other elements are unchanged"); delete a; delete b; A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(array_huge) { if (vp_choice("n", 2)) arrays<300>(); else arrays<66000>(); }
// swapping and lists of many elements
template<class C> static bool holds(const C &c, int n, int d) { int j = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i, ++j) if (j >= n || !(*i == at(j) + d)) return false; return j == n; }
template<class C> static void fillup(C &c, int n, int d) { for (int i = 0; i < n; ++i) c.push_back(at(i) + d); }
template<> void fillup<V>(V &c, int n, int d) { c.reserve(n + 1); for (int i = 0; i < n; ++i) c.push_back(at(i) + d); }
template<> void fillup<FL>(FL &c, int n, int d) { for (int i = n; i-- > 0; ) c.push_front(at(i) + d); }
template<class C> static void swapping(int n)
{
   static const int other[] = { 0, 1, 255, 299 }; int m = other[vp_choice("other", 4)]; if (m > n) m = n; { C *a = new C, *b = new C; bool first = vp_choice("first", 2); fillup(first ? *a : *b, n, 0); fillup(first ? *b : *a, m, 7);
   if (vp_choice("turn", 2)) a->swap(*b); else b->swap(*a);
   A_(holds(first ? *b : *a, n, 0) && holds(first ? *a : *b, m, 7), "swap exchanges every element"); a->swap(*b); A_(holds(first ? *a : *b, n, 0) && holds(first ? *b : *a, m, 7), "swapping twice restores the original"); delete a; delete b; }
   A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(swap_huge) { int n = PICK(many); switch (vp_choice("kind", 6)) { case 0: swapping<V>(n); break; case 1: swapping<FV>(n); break; case 2: swapping<L>(n); break; case 3: swapping<FL>(n); break; case 4: swapping<BL>(n); break; case 5: swapping<Q>(n); break; } }
VP_ENTRY(list_long)
{
   int n = PICK(many); { L c; fillup(c, n, 0); int x = vp_int("x"); A_((int)c.size() == n, "size counts every element"); bool ok = true;
   switch (vp_choice("op", 8)) {
   case 0: c.push_back(x); c.push_front(x); A_((int)c.size() == n + 2 && c.back() == x && c.front() == x, "size counts every element"); c.pop_back(); c.pop_front(); break;
   case 1: c.resize(n + 2, x); A_((int)c.size() == n + 2 && c.back() == x, "resize appends"); c.resize(n); break;
   case 2: c.resize(n - 1); A_((int)c.size() == n - 1 && c.back() == at(n - 2), "resize cuts off the end"); c.push_back(at(n - 1)); break;
   case 3: { L d(c); A_(d == c && (int)d.size() == n, "a copy is equal"); d = c; A_(d == c, "an assigned copy is equal"); d.back() = x; A_((d == c) == (x == at(n - 1)), "equality looks at every element"); break; }
   case 4: { L d; d.push_back(-1); d.splice(d.end(), c); A_(c.empty() && (int)d.size() == n + 1, "splice moves every element"); c.splice(c.begin(), d, ++d.begin(), d.end()); A_((int)d.size() == 1, "splice moves every element"); break; }
   case 5: c.reverse(); { int j = n; for (L::iterator i = c.begin(); i != c.end(); ++i) if (!(*i == at(--j))) { ok = false; break; } } A_(ok, "reverse puts every element into its place"); c.reverse(); break;
   case 6: { L d; fillup(d, n, 1); c.merge(d); A_(d.empty() && (int)c.size() == 2 * n, "merging takes every element"); struct Own { bool operator()(int v) const { return v % 3 == 2; } }; c.remove_if(Own()); break; }
   case 7: c.assign((ttl::size_t)n, x); A_((int)c.size() == n && c.back() == x, "assign sets the number of elements"); c.unique(); A_(c.size() == 1, "unique leaves one of equal neighbours"); c.clear(); fillup(c, n, 0); break;
   }
   A_(holds(c, n, 0), VEC); } A_(vp_heap_live() == 0, "all memory released");
}
