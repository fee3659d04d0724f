// Elements of node based containers stay where they are (P33): no edit moves, copies, overwrites or invalidates another element.
#include "common.h"
#ifndef NI
#define NI 3       // largest initial length
#endif
#ifndef NC
#define NC 2       // largest count of one operation
#endif
#ifndef NOPS
#define NOPS 1     // operations
#endif
static const void *g_kept[512]; static int g_nkept; static int g_armed;
static bool kept(const void *p) { if (g_armed) for (int i = 0; i < g_nkept; ++i) if (g_kept[i] == p) return true; return false; }
struct S {       // an element that must not be read for copying or written while it is kept
   int v; S(int x = 0): v(x) {}
   S(const S &o): v(o.v) { A_(!kept(&o), "an edit copies no element that stays"); }
   S &operator=(const S &o) { A_(!kept(this), "an edit overwrites no element that stays"); A_(!kept(&o), "an edit copies no element that stays"); v = o.v; return *this; }
   ~S() { A_(!kept(this), "an edit destroys no element that stays"); }
};
static bool operator==(const S &a, const S &b) { return a.v == b.v; }
static bool operator!=(const S &a, const S &b) { return a.v != b.v; }
static bool operator<(const S &a, const S &b) { return a.v < b.v; }
#ifdef VP_PERMISSIVE
static bool operator>(const S &a, const S &b) { return a.v > b.v; }
static bool operator<=(const S &a, const S &b) { return a.v <= b.v; }
static bool operator>=(const S &a, const S &b) { return a.v >= b.v; }
#endif
typedef ttl::list<S> L; typedef ttl::forward_list<S> FL; typedef ttl::backward_list<S> BL; typedef ttl::lazy_queue<S> Q;
template<class C> static typename C::iterator at(C &c, int p) { typename C::iterator i = c.begin(); while (p-- > 0) ++i; return i; }
template<class C> static typename C::iterator before(C &c, int p) { typename C::iterator i = c.before_begin(); while (p-- > 0) ++i; return i; }
enum { B0 = 100 };     // identities of the second container's elements
template<class C> struct Rec { const S *p[200]; typename C::iterator it[200]; int v[200]; };
#ifdef LARGE         // many elements: known values, in order, some of them repeated
static int fillv(int i, int, const int *) { return i * 2 / 3; }
#else
static int fillv(int i, int mode, const int *v) { int x = vp_int("x"); if (mode && i) vp_assume(mode > 0 ? v[-1] <= x : v[-1] >= x); return x; }
#endif
template<class C> static void fill(C &c, Seq &m, Rec<C> &r, int n, int base, int mode)
{
   for (int i = 0; i < n; ++i) { r.v[base + i] = fillv(i, mode, &r.v[base + i]); c.push_back(S(r.v[base + i])); m.push(base + i); }
   int i = base; for (typename C::iterator j = c.begin(); j != c.end(); ++j, ++i) { r.p[i] = &*j; r.it[i] = j; }
}
template<> void fill<FL>(FL &c, Seq &m, Rec<FL> &r, int n, int base, int)
{
   for (int i = n; i > 0; --i) { r.v[base + i - 1] = vp_int("x"); c.push_front(S(r.v[base + i - 1])); m.ins(0, base + i - 1); }
   int i = base; for (FL::iterator j = c.begin(); j != c.end(); ++j, ++i) { r.p[i] = &*j; r.it[i] = j; }
}
template<class C> static void keep(const Rec<C> &r, const Seq &a, const Seq &b)      // exactly these stay
{
   g_nkept = 0; for (int i = 0; i < a.n; ++i) if (a.a[i] >= 0) g_kept[g_nkept++] = r.p[a.a[i]]; for (int i = 0; i < b.n; ++i) if (b.a[i] >= 0) g_kept[g_nkept++] = r.p[b.a[i]]; g_armed = 1;
}
template<class C> static void same(C &c, const Seq &m, const Rec<C> &r)
{
   int n = 0;
   for (typename C::iterator j = c.begin(); j != c.end(); ++j, ++n) {
      A_(n < m.n, "no extra elements"); int id = m.a[n]; if (id < 0) continue;
      A_(&*j == r.p[id], "an element that stays keeps its address"); A_(j->v == r.v[id], "an element that stays keeps its value"); A_(r.it[id] == j, "an iterator kept designates the same element");
      typename C::iterator k = r.it[id], q = j; ++k; ++q; A_(k == q, "a kept iterator continues in the edited sequence"); vp_observe(j->v);
   }
   A_(n == m.n, "no element is lost");
}
static void back(L &c, const Seq &m, const Rec<L> &r) { int n = m.n; for (L::iterator j = c.end(); j != c.begin(); ) { --j; --n; A_(n >= 0, "no extra elements"); if (m.a[n] >= 0) A_(r.it[m.a[n]] == j, "a kept iterator continues backward in the edited sequence"); } A_(n == 0, "no element is lost"); }
template<class C> static void back(C &, const Seq &, const Rec<C> &) {}
#define NEW -1
struct Odd { bool operator()(const S &a) const { return a.v & 1; } };
static void news(Seq &m, int p, int k) { for (int i = 0; i < k; ++i) m.ins(p, NEW); }
// the sequences afterwards are worked out first, so that what stays is known while the edit runs
static int nops(const L &) { return 19; } static int nops(const FL &) { return 12; } static int nops(const BL &) { return 12; } static int nops(const Q &) { return 12; }
static int mode(const L &, int op) { return op == 14 ? 1 : 0; }
template<class C> static int mode(const C &, int) { return 0; }
static void apply(L &c, L &o, Seq &m, Seq &mo, Rec<L> &r, int op)
{
   int n = m.n; Seq none;
   switch (op) {
   case 0: m.ins(0, NEW); keep(r, m, mo); c.push_front(S(vp_int("y"))); break;
   case 1: m.push(NEW); keep(r, m, mo); c.push_back(S(vp_int("y"))); break;
   case 2: if (n) { m.del(0, 1); keep(r, m, mo); c.pop_front(); } break;
   case 3: if (n) { m.del(n - 1, n); keep(r, m, mo); c.pop_back(); } break;
   case 4: { int p = SZ("pos", n + 1); L::iterator i = at(c, p); m.ins(p, NEW); keep(r, m, mo); c.insert(i, S(vp_int("y"))); break; }
   case 5: { int p = SZ("pos", n + 1), k = SZ("cnt", NC + 1); L::iterator i = at(c, p); news(m, p, k); keep(r, m, mo); c.insert(i, (ttl::size_t)k, S(vp_int("y"))); break; }
   case 6: { int p = SZ("pos", n + 1), k = SZ("cnt", NC + 1); S s[NC + 1]; for (int i = 0; i < k; ++i) s[i].v = vp_int("y"); L::iterator i = at(c, p); news(m, p, k); keep(r, m, mo); c.insert(i, (const S *)s, (const S *)s + k); break; }
   case 7: if (n) { int p = SZ("pos", n); L::iterator i = at(c, p); m.del(p, p + 1); keep(r, m, mo); c.erase(i); } break;
   case 8: { int k = SZ("size", n + NC + 1); if (k < n) m.del(k, n); else news(m, n, k - n); keep(r, m, mo); c.resize(k); vp_reach("stable resize"); break; }
   case 9: m.clear(); keep(r, m, mo); c.clear(); break;
   case 10: { Seq t = m; m = mo; mo = t; keep(r, m, mo); c.swap(o); vp_reach("stable swap"); break; }
   case 11: { int p = SZ("pos", n + 1); L::iterator i = at(c, p); for (int k = 0; k < mo.n; ++k) m.ins(p + k, mo.a[k]); mo.clear(); keep(r, m, mo); c.splice(i, o); vp_reach("stable splice"); break; }
   case 12: if (mo.n) { int p = SZ("pos", n + 1), q = SZ("it", mo.n); L::iterator i = at(c, p), j = at(o, q); m.ins(p, mo.a[q]); mo.del(q, q + 1); keep(r, m, mo); c.splice(i, o, j); } break;
   case 13: { int p = SZ("pos", n + 1), f = SZ("first", mo.n + 1), l = f + SZ("len", mo.n - f + 1); L::iterator i = at(c, p), a = at(o, f), b = at(o, l); for (int k = f; k < l; ++k) m.ins(p + k - f, mo.a[k]); mo.del(f, l); keep(r, m, mo); c.splice(i, o, a, b); break; }
   case 14: { Seq t; int i = 0, j = 0; while (i < m.n || j < mo.n) { bool tb = i >= m.n || (j < mo.n && vp_concretize(r.v[mo.a[j]] < r.v[m.a[i]])); t.push(tb ? mo.a[j++] : m.a[i++]); } m = t; mo.clear(); keep(r, m, mo); c.merge(o); vp_reach("stable merge"); break; }
   case 15: { Seq t; for (int i = 0; i < n; ++i) if (!t.n || !vp_concretize(r.v[t.a[t.n-1]] == r.v[m.a[i]])) t.push(m.a[i]); m = t; keep(r, m, mo); c.unique(); vp_reach("stable unique"); break; }
   case 16: { int x = vp_int("y"); Seq t; for (int i = 0; i < n; ++i) if (!vp_concretize(r.v[m.a[i]] == x)) t.push(m.a[i]); m = t; keep(r, m, mo); c.remove(S(x)); break; }
   case 17: { Seq t; for (int i = 0; i < n; ++i) if (!vp_concretize(r.v[m.a[i]] & 1)) t.push(m.a[i]); m = t; keep(r, m, mo); c.remove_if(Odd()); break; }
   case 18: m.rev(); keep(r, m, mo); c.reverse(); break;
   }
}
static void fwd_ops(FL &c, FL &o, Seq &m, Seq &mo, Rec<FL> &r, int op)
{
   int n = m.n;
   if (op == 0) { m.rev(); keep(r, m, mo); c.reverse(); }
   else if (op == 1) { int p = SZ("after", n + 1); FL::iterator i = before(c, p); for (int k = 0; k < mo.n; ++k) m.ins(p + k, mo.a[k]); mo.clear(); keep(r, m, mo); c.splice_after(i, o); }
   else if (mo.n) { int p = SZ("after", n + 1), q = SZ("it", mo.n); FL::iterator i = before(c, p), j = before(o, q); m.ins(p, mo.a[q]); mo.del(q, q + 1); keep(r, m, mo); c.splice_after(i, o, j); }
}
static void fwd_ops(BL &c, BL &, Seq &m, Seq &mo, Rec<BL> &r, int op)
{
   if (op == 0) { m.rev(); keep(r, m, mo); c.reverse(); } else { m.push(NEW); keep(r, m, mo); c.push_back(S(vp_int("y"))); }
}
static void fwd_ops(Q &c, Q &, Seq &m, Seq &mo, Rec<Q> &r, int op)
{
   if (op == 0) { if (m.n > 1) { int x = m.a[0]; m.del(0, 1); m.push(x); } keep(r, m, mo); c.roll_head(); vp_reach("stable roll"); }
   else if (op == 1) { keep(r, m, mo); c.cleanup(); vp_reach("stable cleanup"); }
   else { m.push(NEW); keep(r, m, mo); c.push_back(S(vp_int("y"))); }
}
template<class C> static void apply(C &c, C &o, Seq &m, Seq &mo, Rec<C> &r, int op)
{
   int n = m.n;
   switch (op) {
   case 0: m.ins(0, NEW); keep(r, m, mo); c.push_front(S(vp_int("y"))); break;
   case 1: if (n) { m.del(0, 1); keep(r, m, mo); c.pop_front(); } break;
   case 2: { int p = SZ("after", n + 1); typename C::iterator i = before(c, p); m.ins(p, NEW); keep(r, m, mo); c.insert_after(i, S(vp_int("y"))); break; }
   case 3: { int p = SZ("after", n + 1), k = SZ("cnt", NC + 1); typename C::iterator i = before(c, p); news(m, p, k); keep(r, m, mo); c.insert_after(i, (ttl::size_t)k, S(vp_int("y"))); break; }
   case 4: { int p = SZ("after", n + 1), k = SZ("cnt", NC + 1); S s[NC + 1]; for (int i = 0; i < k; ++i) s[i].v = vp_int("y"); typename C::iterator i = before(c, p); news(m, p, k); keep(r, m, mo); c.insert_after(i, (const S *)s, (const S *)s + k); break; }
   case 5: if (n) { int p = SZ("after", n); typename C::iterator i = before(c, p); m.del(p, p + 1); keep(r, m, mo); c.erase_after(i); } break;
   case 6: { int p = SZ("after", n + 1), k = SZ("len", n - p + 1); typename C::iterator i = before(c, p), l = at(c, p + k); m.del(p, p + k); keep(r, m, mo); c.erase_after(i, l); break; }
   case 7: m.clear(); keep(r, m, mo); c.clear(); break;
   case 8: { Seq t = m; m = mo; mo = t; keep(r, m, mo); c.swap(o); vp_reach("stable swap"); break; }
   default: fwd_ops(c, o, m, mo, r, op - 9); break;
   }
}
template<class C> static void stable()
{
   { Rec<C> r; C c, o; Seq m, mo; int op = vp_choice("op", nops(c)); g_armed = 0;
   fill(c, m, r, SZ("n", NI + 1), 0, mode(c, op)); fill(o, mo, r, SZ("on", NI + 1), B0, mode(c, op));
   apply(c, o, m, mo, r, op); same(c, m, r); back(c, m, r); same(o, mo, r); back(o, mo, r);
   // what happens to the second container concerns nobody else
   if (op != 9 && vp_choice("again", 2)) { g_armed = 0; int i = vp_choice("second", 2); if (i) { mo.clear(); keep(r, m, mo); o.clear(); same(c, m, r); back(c, m, r); } else { o.push_front(S(1)); mo.ins(0, NEW); same(o, mo, r); same(c, m, r); } }
   g_armed = 0; } A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_stable) { stable<L>(); }
VP_ENTRY(fwd_stable) { stable<FL>(); }
VP_ENTRY(back_stable) { stable<BL>(); }
VP_ENTRY(lazy_stable) { stable<Q>(); }
// ordered containers: the same with arbitrary keys
typedef ttl::set<S> TS; typedef ttl::map<S, S> TM;
static const S &first(const TS::iterator &i) { return *i; }
static const S &first(const TM::iterator &i) { return i->first; }
static void put(TS &c, int k) { c.insert(S(k)); }
static void put(TM &c, int k) { c.insert(TM::value_type(S(k), S(k ^ 5))); }
template<class I> struct Slot { alignas(I) char b[sizeof(I)]; void operator=(const I &i) { new (b) I(i); } I &get() { return *reinterpret_cast<I *>(b); } };   // tree iterators have no default constructor
template<class C> static void tree(int n)
{
   { g_armed = 0; C c; int k[64]; Slot<typename C::iterator> it[64]; const S *p[64];
   int pat = vp_choice("pattern", 3);
   for (int i = 0; i < n; ++i) { k[i] = pat == 0 ? 4 * i : pat == 1 ? 4 * (n - i) : 4 * ((i * 7 + 3) % 61); put(c, k[i]); }
   for (int i = 0; i < n; ++i) { it[i] = c.find(S(k[i])); p[i] = &first(it[i].get()); }
   int x = vp_int("key"), gone = -1; for (int i = 0; i < n; ++i) if (vp_concretize(k[i] == x)) gone = i;
   bool er = vp_choice("erase", 2); g_nkept = 0; for (int i = 0; i < n; ++i) if (!er || i != gone) g_kept[g_nkept++] = p[i]; g_armed = 1;
   if (er) c.erase(S(x)); else put(c, x);
   for (int i = 0; i < n; ++i) { if (er && i == gone) continue; A_(first(it[i].get()).v == k[i], "an element that stays keeps its value"); typename C::iterator f = c.find(S(k[i])); A_(f == it[i].get() && &first(f) == p[i], "an element that stays keeps its address"); }
   int cnt = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i) ++cnt; A_(cnt == n + (er ? gone >= 0 ? -1 : 0 : gone < 0), "no element is lost"); if (gone >= 0 && er) vp_reach("stable erase");
   g_armed = 0; } A_(vp_heap_live() == 0, "every node released");
}
#ifndef NT
#define NT 16
#endif
VP_ENTRY(set_kept) { tree<TS>(SZ("n", NT + 1)); }
VP_ENTRY(map_kept) { tree<TM>(SZ("n", NT + 1)); }
