// Pairs, arrays, swap, functional and numeric helpers (P31), array equality (P30) and swap (P28).
#include "common.h"
#ifndef AN
#define AN 5
#endif
struct S3 { int a; long b; char c; };
static bool eq(const S3 &x, const S3 &y) { return (x.a == y.a) & (x.b == y.b) & (x.c == y.c); }
static S3 anyS3() { S3 s; s.a = vp_int("a"); s.b = (long)vp_u64("b"); s.c = (char)vp_u8("c"); return s; }
// equality looks at both parts, order only at the first
struct Two { int a, b; };
static bool operator==(const Two &x, const Two &y) { return (x.a == y.a) & (x.b == y.b); }
static bool operator!=(const Two &x, const Two &y) { return !(x == y); }
static bool operator<(const Two &x, const Two &y) { return x.a < y.a; }
static bool operator>(const Two &x, const Two &y) { return x.a > y.a; }
static bool operator<=(const Two &x, const Two &y) { return x.a <= y.a; }
static bool operator>=(const Two &x, const Two &y) { return x.a >= y.a; }
static Two anyTwo() { Two t; t.a = vp_int("a"); t.b = vp_int("b"); return t; }
VP_ENTRY(u_equality)   // equality of pairs, arrays and sequences is that of their members
{
   Two x = anyTwo(), y = anyTwo(); bool e = x == y;
   switch (vp_choice("of", 6)) {
   case 0: { int a = vp_int("f"), b = vp_int("f"); ttl::pair<Two, int> p(x, a), q(y, b); e = e & (a == b); A_((p == q) == e, "pairs are equal exactly if both members are"); A_((p != q) == !e, "inequality is the negation"); break; }
   case 1: { int a = vp_int("f"), b = vp_int("f"); ttl::pair<int, Two> p(a, x), q(b, y); e = e & (a == b); A_((p == q) == e, "pairs are equal exactly if both members are"); A_((p != q) == !e, "inequality is the negation"); break; }
   case 2: { ttl::array<Two, 2> p, q; Two z = anyTwo(), w = anyTwo(); p[0] = x; q[0] = y; p[1] = z; q[1] = w; e = e & (z == w); A_((p == q) == e, "arrays are equal exactly if all elements are"); A_((p != q) == !e, "inequality is the negation"); break; }
   case 3: { ttl::vector<Two> p, q; Two z = anyTwo(), w = anyTwo(); p.push_back(x); q.push_back(y); p.push_back(z); q.push_back(w); e = e & (z == w); A_((p == q) == e, "vectors are equal exactly if all elements are"); A_((p != q) == !e, "inequality is the negation"); break; }
   case 4: { ttl::list<Two> p, q; Two z = anyTwo(), w = anyTwo(); p.push_back(x); q.push_back(y); p.push_back(z); q.push_back(w); e = e & (z == w); A_((p == q) == e, "lists are equal exactly if all elements are"); A_((p != q) == !e, "inequality is the negation"); break; }
   case 5: { ttl::map<int, Two> p, q; int k = vp_int("key"), l = vp_int("key"); p.insert(ttl::map<int, Two>::value_type(k, x)); q.insert(ttl::map<int, Two>::value_type(l, y)); e = e & (k == l); A_((p == q) == e, "maps are equal exactly if keys and values are"); A_((p != q) == !e, "inequality is the negation"); break; }
   }
   if (e) vp_reach("members equal"); else vp_reach("members differ");
}
VP_ENTRY(u_pair)
{
   typedef ttl::pair<int, long> P; int a = vp_int("a"), c = vp_int("c"); long b = (long)vp_u64("b"), d = (long)vp_u64("d");
   P x(a, b), y(c, d); const P &cx = x;
   A_(x.first == a && x.second == b, "a pair holds the values given");
   switch (vp_choice("op", 10)) {
   case 0: { P z; A_(z.first == 0 && z.second == 0, "a default pair holds default values"); break; }
   case 1: { P z(x); A_((z.first == a) & (z.second == b), "copy"); z.first = c; z.second = d; A_((x.first == a) & (x.second == b), "a copy is independent"); break; }
   case 2: { P &r = (y = x); A_(&r == &y, "assignment returns the target"); A_((y.first == a) & (y.second == b) & (x.first == a) & (x.second == b), "assignment copies both members"); y.first = c; A_(x.first == a, "independent"); break; }
   case 3: x.swap(y); A_((x.first == c) & (x.second == d) & (y.first == a) & (y.second == b), "swap exchanges both members"); x.swap(y); A_((x.first == a) & (x.second == b) & (y.first == c) & (y.second == d), "swapping twice restores"); break;
   case 4: { P z = ttl::make_pair(a, b); A_((z.first == a) & (z.second == b), "make_pair"); break; }
   case 5: { bool e = (a == c) & (b == d); A_((x == y) == e, "pairs are equal exactly if both members are"); A_((y == x) == e, "equality is symmetric"); A_((x != y) == !e, "inequality is the negation"); if (e) vp_reach("pairs equal"); else vp_reach("pairs differ"); break; }
   case 6: { ttl::pair<long, long> z(x); A_((z.first == (long)a) & (z.second == b), "converting copy"); z.first = 9; z = y; A_((z.first == (long)c) & (z.second == d), "converting assignment"); break; }
   case 7: { P &al = x; x = al; A_((x.first == a) & (x.second == b), "self-assignment"); x.swap(al); A_((x.first == a) & (x.second == b), "self-swap"); break; }
   case 8: { ttl::select_first<P> f; ttl::select_second<P> s; A_(&f(x) == &x.first && &f(cx) == &x.first, "select_first designates the first member"); A_(&s(x) == &x.second && &s(cx) == &x.second, "select_second designates the second member"); ttl::select_same<int> q; A_(&q(a) == &a, "select_same designates its argument"); break; }
   case 9: { ttl::swap(x, y); A_((x.first == c) & (x.second == d) & (y.first == a) & (y.second == b), "swapping two pairs exchanges them"); break; }
   }
   vp_observe(x.first);
}
VP_ENTRY(u_pair_tracked)
{
   { int a = vp_int("a"), b = vp_int("b"); ttl::pair<Trk, Trk> x = ttl::make_pair(Trk(a), Trk(b)), y(x), z; z = y; y.swap(z); A_((val(z.first) == a) & (val(z.second) == b) & (val(y.first) == a) & (val(y.second) == b), "members are copied"); A_(x == z && !(x != z), "equal"); A_(vp_live_objs() == 6, "exactly the members are alive"); }
   A_(vp_live_objs() == 0, "every member destroyed");
}
VP_ENTRY(u_swap)
{
   switch (vp_choice("type", 4)) {
   case 0: { int a = vp_int("a"), b = vp_int("b"), x = a, y = b; ttl::swap(x, y); A_((x == b) & (y == a), "swap exchanges the values"); ttl::swap(x, x); A_(x == b, "swapping with itself changes nothing"); break; }
   case 1: { S3 a = anyS3(), b = anyS3(), x = a, y = b; ttl::swap(x, y); A_(eq(x, b) & eq(y, a), "swap exchanges all members"); break; }
   case 2: { { int a = vp_int("a"), b = vp_int("b"); Trk x(a), y(b); ttl::swap(x, y); A_((val(x) == b) & (val(y) == a), "swap exchanges the values"); A_(vp_live_objs() == 2, "no temporary is left"); } A_(vp_live_objs() == 0, "every object destroyed"); break; }
   case 3: { int a = vp_int("a"), b = vp_int("b"); int *p = &a, *q = &b; ttl::swap(p, q); A_(p == &b && q == &a, "swap exchanges pointers"); A_(&static_cast<int &>((int &)ttl::move(a)) == &a, "move designates the same object"); break; }
   }
}
VP_ENTRY(u_functional)
{
   int a = vp_int("a"), b = vp_int("b"); unsigned c = vp_u32("c"), d = vp_u32("d");
   A_(ttl::less<int>()(a, b) == (a < b), "less"); A_(ttl::greater<int>()(a, b) == (a > b), "greater"); A_(ttl::equal_to<int>()(a, b) == (a == b), "equal_to"); A_(ttl::not_equal_to<int>()(a, b) == (a != b), "not_equal_to");
   A_(ttl::less<unsigned>()(c, d) == (c < d), "less"); A_(ttl::greater<unsigned>()(c, d) == (c > d), "greater"); A_(ttl::equal_to<unsigned>()(c, d) == (c == d), "equal_to"); A_(ttl::not_equal_to<unsigned>()(c, d) == (c != d), "not_equal_to");
   int n = vp_choice("n", AN + 1), k = vp_choice("k", n + 1); int t[AN + 1]; int *i = t; ttl::advance(i, k); A_(i == t + k, "advance moves by the distance"); A_(ttl::distance(t, t + n) == n && ttl::distance(i, t + n) == n - k && ttl::distance(i, t) == -k, "distance is the number of steps"); ttl::advance(i, -k); A_(i == t, "advance moves back");
}
template<unsigned N> static void arr()
{
   typedef ttl::array<int, N> R; struct { int g0; R r; int g1; R s; int g2; } b; b.g0 = b.g1 = b.g2 = 0x51; R &x = b.r, &y = b.s; const R &cx = x; int o[N + 1], q[N + 1];
   for (unsigned i = 0; i < N; ++i) { x[i] = o[i] = vp_int("x"); y.at(i) = q[i] = vp_int("y"); }
   if (!N) { x.elements_[0] = y.elements_[0] = 5; }
   A_(x.size() == N && x.max_size() == N && x.empty() == (N == 0), "size"); A_(x.end() - x.begin() == (long)N && cx.end() - cx.begin() == (long)N && cx.cend() - cx.cbegin() == (long)N && x.data() == x.begin() && cx.data() == cx.begin() && cx.cbegin() == cx.begin(), "begin and end span the elements");
   for (unsigned i = 0; i < N; ++i) { A_(&x[i] == x.begin() + i && &x.at(i) == &x[i] && &cx[i] == &x[i] && &cx.at(i) == &x[i], "every access designates the same element"); A_(x[i] == o[i], "elements hold the values given"); }
   if (N) A_(&x.front() == &x[0] && &cx.front() == &x[0] && &x.back() == &x[N-1] && &cx.back() == &x[N-1], "front and back");
   switch (vp_choice("op", 5)) {
   case 0: { int v = vp_int("v"); x.fill(v); bool ok = true; for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == v) & (y[i] == q[i]); A_(ok, "fill sets every element"); break; }
   case 1: { x.swap(y); bool ok = true; for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == q[i]) & (y[i] == o[i]); A_(ok, "swap exchanges all elements"); x.swap(y); for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == o[i]) & (y[i] == q[i]); A_(ok, "swapping twice restores"); x.swap(x); for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == o[i]); A_(ok, "swapping with itself changes nothing"); break; }
   case 2: { bool e = true; for (unsigned i = 0; i < N; ++i) e = e & (o[i] == q[i]); A_((x == y) == e, "arrays are equal exactly if all elements are"); A_((y == x) == e, "equality is symmetric"); A_((x != y) == !e, "inequality is the negation"); A_(x == x && !(x != x), "an array equals itself"); if (e) vp_reach("arrays equal"); break; }
   case 3: { R z = x; bool ok = true; for (unsigned i = 0; i < N; ++i) ok = ok & (z[i] == o[i]); z.fill(3); for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == o[i]); y = x; for (unsigned i = 0; i < N; ++i) ok = ok & (y[i] == o[i]); A_(ok, "copies are equal and independent"); break; }
   case 4: { unsigned p = N ? vp_choice("pos", N) : 0; int v = vp_int("v"); if (!N) break; x[p] = v; bool ok = true; for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == (i == p ? v : o[i])); x.begin()[p] = v + 0; A_(ok, "writing one element changes only that one"); break; }
   }
   if (!N) A_(x.elements_[0] == 5 && y.elements_[0] == 5, "an empty array is not written"); A_(b.g0 == 0x51 && b.g1 == 0x51 && b.g2 == 0x51, "nothing outside the array is written"); vp_observe(N ? x[0] : 0);
}
VP_ENTRY(u_array) { switch (vp_choice("N", 6)) { case 0: arr<0>(); break; case 1: arr<1>(); break; case 2: arr<2>(); break; case 3: arr<3>(); break; case 4: arr<AN>(); break; case 5: arr<2 * AN + 1>(); break; } }
VP_ENTRY(u_array_tracked)
{
   { ttl::array<Trk, 3> a, b; int v[3]; for (int i = 0; i < 3; ++i) { v[i] = vp_int("x"); a[i] = Trk(v[i]); } b = a; int w = vp_int("w"); a.fill(Trk(w)); a.swap(b); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok & (val(a[i]) == v[i]) & (val(b[i]) == w); A_(ok, "elements are filled and exchanged"); A_(vp_live_objs() == 6, "exactly the elements are alive"); }
   A_(vp_live_objs() == 0, "every element destroyed");
}
