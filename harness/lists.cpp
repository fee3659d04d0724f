// Linked sequences: list, forward_list, backward_list, lazy_queue.
#include "common.h"
#ifndef NI
#define NI 3       // largest initial length
#endif
#ifndef NOPS
#define NOPS 2     // operations
#endif
#ifndef NC
#define NC 2       // largest count / range length of one operation
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef SYMARG
#define SYMARG 0
#endif
#if SYMARG     // positions and counts: symbolic, or explored case by case
#define ARG(name, n) sym_arg(name, n)
#else
#define ARG(name, n) SZ(name, n)
#endif
static inline int sym_arg(const char *name, int n) { int x = vp_int(name); vp_assume((x >= 0) & (x < n)); return x; }
#ifndef ELT_TRK
#define ELT_TRK 0
#endif
#ifndef NM
#define NM 3       // longest list for merge/unique/remove
#endif
typedef ELT E;
typedef ttl::list<E> L;
typedef ttl::forward_list<E> FL;
typedef ttl::backward_list<E> BL;
typedef ttl::lazy_queue<E> Q;
template<class C> static typename C::iterator at(C &c, int p) { typename C::iterator i = c.begin(); while (p-- > 0) ++i; return i; }
template<class C> static typename C::iterator before(C &c, int p) { typename C::iterator i = c.before_begin(); while (p-- > 0) ++i; return i; }

// ------------------------------------------------------------ comparison with the abstract sequence
template<class C> static void chk_fwd(C &c, const Seq &m)
{
   const C &cc = c; int n = 0;
   for (typename C::iterator i = c.begin(); i != c.end(); ) {
      A_(n < m.n, "read forward: no more elements than the abstract sequence");
      A_(val(*i) == m.a[n], "read forward: same elements as the abstract sequence"); vp_observe(val(*i));
      typename C::iterator w = i; if (n & 1) { typename C::iterator o = i++; A_(o == w, "post-increment returns the old position"); } else ++i;
      ++n;
   }
   A_(n == m.n, "read forward: every element of the abstract sequence");
   n = 0;
   for (typename C::const_iterator i = cc.cbegin(); i != cc.cend(); ) {
      A_(n < m.n, "read forward (const): no more elements than the abstract sequence");
      A_(val(*i) == m.a[n], "read forward (const): same elements"); ++n;
      if (n & 1) i++; else ++i;
   }
   A_(n == m.n, "read forward (const): every element");
   A_(c.empty() == (m.n == 0) && cc.empty() == (m.n == 0), "empty agrees");
   if (m.n) { A_(val(c.front()) == m.a[0] && val(cc.front()) == m.a[0], "front is the first element"); A_(&c.front() == &*c.begin(), "front designates the first element"); }
}
static void chk(L &c, const Seq &m)
{
   chk_fwd(c, m);
   const L &cc = c;
   A_((int)c.size() == m.n, "size agrees");
   int n = m.n;
   for (L::iterator i = c.end(); i != c.begin(); ) {
      L::iterator w = i;
      if (n & 1) { L::iterator o = i--; A_(o == w, "post-decrement returns the old position"); } else --i;
      A_(n > 0, "read backward: no more elements than the abstract sequence"); --n;
      A_(i != c.end(), "read backward reaches elements");
      A_(val(*i) == m.a[n], "read backward: reverse of the abstract sequence");
   }
   A_(n == 0, "read backward: every element");
   n = m.n;
   for (L::const_iterator i = cc.cend(); i != cc.cbegin(); ) { --i; A_(n > 0, "read backward (const): no more elements"); --n; A_(val(*i) == m.a[n], "read backward (const): reverse"); }
   A_(n == 0, "read backward (const): every element");
   if (m.n) A_(val(c.back()) == m.a[m.n-1] && val(cc.back()) == m.a[m.n-1], "back is the last element");
}
static void chk(FL &c, const Seq &m) { chk_fwd(c, m); FL::iterator b = c.before_begin(); ++b; A_(b == c.begin(), "before_begin precedes begin"); }
template<class C> static void chk_tail(C &c, const Seq &m)
{
   chk_fwd(c, m); const C &cc = c;
   if (m.n) {
      A_(val(c.back()) == m.a[m.n-1] && val(cc.back()) == m.a[m.n-1], "back is the last element");
      typename C::iterator i = at(c, m.n - 1); A_(c.before_end() == i, "before_end is the last element"); A_(&c.back() == &*i, "back designates the last element");
   } else A_(c.before_end() == c.before_begin(), "before_end of an empty list is before_begin");
}
static void chk(BL &c, const Seq &m) { chk_tail(c, m); }
static void chk(Q &c, const Seq &m) { chk_tail(c, m); }

static void fill(L &c, Seq &m, int n) { for (int i = 0; i < n; ++i) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); } }
static void fill(BL &c, Seq &m, int n) { for (int i = 0; i < n; ++i) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); } }
static void fill(Q &c, Seq &m, int n) { for (int i = 0; i < n; ++i) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); } }
static void fill(FL &c, Seq &m, int n) { for (int i = 0; i < n; ++i) { int x = vp_int("x"); c.push_front(E(x)); m.ins(0, x); } }

// ------------------------------------------------------------ list: P12
enum { PUSHF, PUSHB, POPF, POPB, INS1, INSN, INSR, ERA1, ERAR, RSZ, RSZV, ASGN, ASGR, CLR, REV, SWP, OPEQ, WRITE, INSL, NOPK };
static int edit(L &c, Seq &m)
{
   int op = vp_choice("op", NOPK), n = m.n;
   switch (op) {
   case PUSHF: { int x = vp_int("x"); c.push_front(E(x)); m.ins(0, x); break; }
   case PUSHB: { int x = vp_int("x"); c.push_back(E(x)); m.push(x); break; }
   case POPF: if (n) { c.pop_front(); m.del(0, 1); } break;
   case POPB: if (n) { c.pop_back(); m.del(n-1, n); } break;
   case INS1: { int p = ARG("pos", n + 1), x = vp_int("x"); L::iterator r = c.insert(at(c, p), E(x)); m.ins(p, x); A_(r == at(c, p), "insert returns the new element"); vp_reach("insert"); break; }
   case INSN: { int p = ARG("pos", n + 1), k = ARG("cnt", NC + 1), x = vp_int("x"); c.insert(at(c, p), (ttl::size_t)k, E(x)); m.insn(p, k, x); break; }
   case INSR: { int p = ARG("pos", n + 1), k = ARG("cnt", NC + 1); int y[NC + 1]; E s[NC + 1]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); }
      c.insert(at(c, p), (const E *)s, (const E *)s + k); for (int i = 0; i < k; ++i) m.ins(p + i, y[i]); break; }
   case INSL: { int p = ARG("pos", n + 1); L o; Seq mo; fill(o, mo, ARG("cnt", NC + 1)); c.insert(at(c, p), o.cbegin(), o.cend()); for (int i = 0; i < mo.n; ++i) m.ins(p + i, mo.a[i]); chk(o, mo); break; }
   case ERA1: if (n) { int p = ARG("pos", n); L::iterator r = c.erase(at(c, p)); m.del(p, p + 1); A_(r == at(c, p), "erase returns the following position"); vp_reach("erase"); } break;
   case ERAR: { // the last element of the range may be left in place (known finding, decided separately); nothing else may
      int p = ARG("first", n + 1), q = p + ARG("len", n - p + 1); int before = (int)c.size();
      L::iterator l = at(c, q); L::iterator r = c.erase(at(c, p), l); A_(r == l, "range erase returns the end of the range");
      int now = 0; for (L::iterator i = c.begin(); i != c.end(); ++i) { A_(now <= before, "list stays finite"); ++now; }
      if (q > p && now == before - (q - p) + 1) m.del(p, q - 1); else m.del(p, q);
      if (p == q) vp_reach("erase empty range"); else vp_reach("erase range"); break; }
   case RSZ: { int k = ARG("n", n + NC + 1); c.resize(k); while (m.n < k) m.push(0); m.n = k; if (!k) vp_reach("resize 0"); break; }
   case RSZV: { int k = ARG("n", n + NC + 1), x = vp_int("x"); c.resize(k, E(x)); while (m.n < k) m.push(x); m.n = k; break; }
   case ASGN: { int k = ARG("n", NC + 2), x = vp_int("x"); c.assign((ttl::size_t)k, E(x)); m.clear(); m.insn(0, k, x); break; }
   case ASGR: { int k = ARG("n", NC + 2); int y[NC + 2]; E s[NC + 2]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); } c.assign((const E *)s, (const E *)s + k); m.clear(); for (int i = 0; i < k; ++i) m.push(y[i]); break; }
   case CLR: c.clear(); m.clear(); vp_reach("clear"); break;
   case REV: c.reverse(); m.rev(); break;
   case SWP: { L o; Seq mo; fill(o, mo, SZ("on", NI + 1)); c.swap(o); Seq t = m; m = mo; mo = t; chk(o, mo); break; }
   case OPEQ: { L o; Seq mo; fill(o, mo, SZ("on", NI + 1)); L &r = (c = o); A_(&r == &c, "assignment returns the target"); m = mo; chk(o, mo); break; }
   case WRITE: if (n) { int p = ARG("pos", n), x = vp_int("x"); *at(c, p) = E(x); m.a[p] = x; } break;
   }
   return op;
}
template<class C> static void history()
{
   { C c; Seq m; fill(c, m, SZ("n", NI + 1));
   for (int i = 0; i < NOPS; ++i) { edit(c, m); chk(c, m);
#if ELT_TRK
      A_(vp_live_objs() == m.n, "exactly the contained elements are alive");
#endif
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_history) { history<L>(); }
template<class C> static void ctors()
{
   { Seq m; int k = SZ("n", NI + 2);
   switch (vp_choice("ctor", 3)) {
   case 0: { int x = vp_int("x"); C c((ttl::size_t)k, E(x)); m.insn(0, k, x); chk(c, m); edit(c, m); chk(c, m); break; }
   case 1: { int y[NI + 2]; E s[NI + 2]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); m.push(y[i]); } C c((const E *)s, (const E *)s + k); chk(c, m); edit(c, m); chk(c, m); break; }
   case 2: { C o; fill(o, m, k); C c(o); chk(c, m); Seq mo = m; edit(c, m); chk(c, m); chk(o, mo); break; }
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_ctors) { ctors<L>(); }
VP_ENTRY(kf_list_erase_range)   // full definition of range erase
{
   L c; Seq m; fill(c, m, SZ("n", NI) + 1); int n = m.n;
   int p = ARG("first", n), q = p + 1 + ARG("len", n - p);
   c.erase(at(c, p), at(c, q)); int now = 0; for (L::iterator i = c.begin(); i != c.end() && now <= n; ++i) ++now;
   if (now == n - (q - p) + 1) { m.del(p, q - 1); chk(c, m); vp_fail("range erase keeps the last element of the range"); }
   m.del(p, q); chk(c, m);
}
VP_ENTRY(list_recycle)          // a cleared or emptied list is as usable as a new one
{
   { L c; Seq m; fill(c, m, SZ("n", NI + 1));
   switch (vp_choice("how", 6)) { case 0: c.clear(); break; case 1: while (!c.empty()) c.pop_front(); break; case 2: while (!c.empty()) c.pop_back(); break; case 3: c.resize(0); break; case 4: c.assign((ttl::size_t)0, E(0)); break; case 5: while (!c.empty()) c.erase(c.begin()); break; }
   m.clear(); chk(c, m);
   for (int i = 0; i < NOPS; ++i) edit(c, m);
   chk(c, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}

static int edit(FL &c, Seq &m); static int edit(BL &c, Seq &m); static int edit(Q &c, Seq &m);
// the edit after a swap or a copy: any; with long lists one at either end
#ifdef LARGE
static void more(L &c, Seq &m) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); }
static void more(BL &c, Seq &m) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); }
static void more(Q &c, Seq &m) { int x = vp_int("x"); c.push_back(E(x)); m.push(x); }
static void more(FL &c, Seq &m) { int p = m.n, x = vp_int("x"); c.insert_after(before(c, p), E(x)); m.ins(p, x); }
template<class C> static void then(C &c, Seq &m)
{
   switch (vp_choice("op", 3)) {
   case 0: more(c, m); break;
   case 1: if (m.n) { c.pop_front(); m.del(0, 1); } break;
   case 2: if (m.n) { int p = m.n / 2, x = vp_int("x"); *at(c, p) = E(x); m.a[p] = x; } break;
   }
}
#else
template<class C> static void then(C &v, Seq &m) { edit(v, m); }
#endif

// ------------------------------------------------------------ list: P13, P11
#define UNMOVED(c, a0, f0) A_(vp_heap_allocs() == a0 && vp_heap_frees() == f0, "elements are relinked, not copied")
VP_ENTRY(list_splice_all)
{
   { L a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 1)); fill(b, mb, SZ("nb", NI + 1)); int p = ARG("pos", ma.n + 1);
   int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); const E *keep[512]; { int i = 0; for (L::iterator j = b.begin(); j != b.end(); ++j) keep[i++] = &*j; }
   a.splice(at(a, p), b); for (int i = 0; i < mb.n; ++i) ma.ins(p + i, mb.a[i]); UNMOVED(a, a0, f0);
   { L::iterator j = at(a, p); for (int i = 0; i < mb.n; ++i, ++j) A_(&*j == keep[i], "spliced elements stay where they were"); }
   if (!mb.n) vp_reach("splice empty list"); mb.clear(); chk(a, ma); chk(b, mb);
   then(b, mb); chk(b, mb); chk(a, ma); then(a, ma); chk(a, ma); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_splice_one)
{
   { L a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 1)); int p = ARG("pos", ma.n + 1);
   if (vp_choice("same", 2)) {
      if (!ma.n) return; int q = ARG("it", ma.n); int a0 = vp_heap_allocs(), f0 = vp_heap_frees();
      a.splice(at(a, p), a, at(a, q)); int x = ma.a[q]; if (q != p) { ma.del(q, q + 1); ma.ins(q < p ? p - 1 : p, x); } UNMOVED(a, a0, f0);
      if (q == p) vp_reach("splice onto itself"); if (q + 1 == p) vp_reach("splice before its successor");
   } else {
      fill(b, mb, SZ("nb", NI) + 1); int q = ARG("it", mb.n); int a0 = vp_heap_allocs(), f0 = vp_heap_frees();
      const E *e = &*at(b, q); a.splice(at(a, p), b, at(b, q)); ma.ins(p, mb.a[q]); mb.del(q, q + 1); UNMOVED(a, a0, f0); A_(&*at(a, p) == e, "the element stays where it was");
   }
   chk(a, ma); chk(b, mb); then(a, ma); chk(a, ma); then(b, mb); chk(b, mb); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_splice_range)
{
   { L a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 1)); int p = ARG("pos", ma.n + 1);
   if (vp_choice("same", 2)) {
      int f = ARG("first", ma.n + 1), l = f + ARG("len", ma.n - f + 1); if (p > f && p < l) return; if (p == f && f < l) return;  // pos inside the range: not allowed
      int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.splice(at(a, p), a, at(a, f), at(a, l)); UNMOVED(a, a0, f0);
      int t[512]; for (int i = f; i < l; ++i) t[i - f] = ma.a[i]; int d = l - f; ma.del(f, l); int np = p >= l ? p - d : p; for (int i = 0; i < d; ++i) ma.ins(np + i, t[i]);
      if (p == l && d) vp_reach("splice range before its end"); if (!d) vp_reach("splice empty range");
   } else {
      fill(b, mb, SZ("nb", NI + 1)); int f = ARG("first", mb.n + 1), l = f + ARG("len", mb.n - f + 1);
      int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.splice(at(a, p), b, at(b, f), at(b, l)); UNMOVED(a, a0, f0);
      for (int i = f; i < l; ++i) ma.ins(p + i - f, mb.a[i]); mb.del(f, l); if (f == l) vp_reach("splice empty range");
   }
   chk(a, ma); chk(b, mb); int w = vp_choice("then", 2); if (w) { then(a, ma); chk(a, ma); } else { then(b, mb); chk(b, mb); } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
// elements with a key (compared) and an identity
struct KI { int k, id; KI(int a = 0, int b = 0): k(a), id(b) {} };
static bool operator<(const KI &a, const KI &b) { return a.k < b.k; }
static bool operator==(const KI &a, const KI &b) { return a.k == b.k; }
static bool operator!=(const KI &a, const KI &b) { return a.k != b.k; }
#ifdef VP_PERMISSIVE
static bool operator>(const KI &a, const KI &b) { return a.k > b.k; }
static bool operator<=(const KI &a, const KI &b) { return a.k <= b.k; }
static bool operator>=(const KI &a, const KI &b) { return a.k >= b.k; }
#endif
struct KGreater { bool operator()(const KI &a, const KI &b) const { return a.k > b.k; } };
struct KIList { int k[32], id[32]; int n; KIList(): n(0) {} void push(int a, int b) { k[n] = a; id[n] = b; ++n; } };
typedef ttl::list<KI> KL;
static void kchk(KL &c, const KIList &m)
{
   int n = 0;
   for (KL::iterator i = c.begin(); i != c.end(); ++i) { A_(n < m.n, "no extra elements"); A_(i->id == m.id[n] && i->k == m.k[n], "exactly the defined elements in the defined order"); vp_observe(i->id); ++n; }
   A_(n == m.n, "no element is lost");
   for (KL::iterator i = c.end(); i != c.begin(); ) { --i; A_(n > 0, "backward: no extra elements"); --n; A_(i->id == m.id[n], "backward links agree"); }
   A_(n == 0, "backward: no element is lost");
}
static void kmerge(bool gt)
{
   { KL a, b; KIList ma, mb; int na = SZ("na", NM + 1), nb = SZ("nb", NM + 1);
   for (int i = 0; i < na; ++i) { int k = vp_int("a"); if (i) vp_assume(gt ? ma.k[i-1] >= k : ma.k[i-1] <= k); a.push_back(KI(k, i)); ma.push(k, i); }
   for (int i = 0; i < nb; ++i) { int k = vp_int("b"); if (i) vp_assume(gt ? mb.k[i-1] >= k : mb.k[i-1] <= k); b.push_back(KI(k, 100 + i)); mb.push(k, 100 + i); }
   int a0 = vp_heap_allocs(), f0 = vp_heap_frees();
   if (gt) a.merge(b, KGreater()); else a.merge(b);
   UNMOVED(a, a0, f0);
   KIList r, e; int i = 0, j = 0;
   while (i < na || j < nb) { bool tb = i >= na || (j < nb && vp_concretize(gt ? mb.k[j] > ma.k[i] : mb.k[j] < ma.k[i])); if (tb) { r.push(mb.k[j], mb.id[j]); ++j; } else { r.push(ma.k[i], ma.id[i]); ++i; } }
   kchk(a, r); kchk(b, e); A_(b.empty() && b.size() == 0, "the merged list is left empty"); A_((int)a.size() == na + nb, "nothing lost or duplicated");
   b.push_back(KI(1, 500)); b.push_front(KI(2, 501)); e.push(2, 501); e.push(1, 500); kchk(b, e); a.push_back(KI(3, 502)); r.push(3, 502); kchk(a, r);
   vp_reach("merged"); }
   A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_merge) { kmerge(false); }
VP_ENTRY(list_merge_cmp) { kmerge(true); }
VP_ENTRY(list_merge_self)
{
   KL a; KIList ma; int na = SZ("na", NM + 1);
   for (int i = 0; i < na; ++i) { int k = vp_int("a"); if (i) vp_assume(ma.k[i-1] <= k); a.push_back(KI(k, i)); ma.push(k, i); }
   KL &al = a; if (vp_choice("cmp", 2)) { if (na > 1) return; a.merge(al, KGreater()); } else a.merge(al);
   kchk(a, ma);
}
struct SamePar { const bool *eq; bool operator()(const KI &a, const KI &b) const { return ((a.k ^ b.k) & 1) == 0; } };
VP_ENTRY(list_unique)
{
   { KL a; KIList r; int n = SZ("n", NM + 2), pred = vp_choice("pred", 2);
   for (int i = 0; i < n; ++i) { int k = vp_int("k"); a.push_back(KI(k, i)); if (!r.n || !vp_concretize(pred ? ((k ^ r.k[r.n-1]) & 1) == 0 : k == r.k[r.n-1])) r.push(k, i); else vp_reach("unique drops"); }
   if (pred) { SamePar p; p.eq = 0; a.unique(p); } else a.unique();
   kchk(a, r); a.push_back(KI(3, 502)); r.push(3, 502); kchk(a, r); A_(vp_heap_live() == r.n, "dropped elements are released"); }
   A_(vp_heap_live() == 0, "every node released");
}
struct Odd { bool operator()(const KI &a) const { return a.k & 1; } };
VP_ENTRY(list_remove)
{
   { KL a; KIList r, all; int n = SZ("n", NM + 2), pred = vp_choice("pred", 2); int x = vp_int("x");
   for (int i = 0; i < n; ++i) { int k = vp_int("k"); a.push_back(KI(k, i)); if (!vp_concretize(pred ? (k & 1) != 0 : k == x)) r.push(k, i); else vp_reach("remove drops"); }
   if (pred) a.remove_if(Odd()); else a.remove(KI(x, 999));
   kchk(a, r); a.push_back(KI(3, 502)); r.push(3, 502); a.push_front(KI(4, 503)); KIList q; q.push(4, 503); for (int i = 0; i < r.n; ++i) q.push(r.k[i], r.id[i]); kchk(a, q); A_(vp_heap_live() == q.n, "dropped elements are released"); }
   A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_remove_own)     // P11: the value is one of the list's own elements
{
   { L a; Seq m, r; int n = ARG("n", NM + 1) + 1; fill(a, m, n); int j = ARG("which", n);
   for (int i = 0; i < n; ++i) if (!vp_concretize(m.a[i] == m.a[j])) r.push(m.a[i]);
   a.remove(*at(a, j)); chk(a, r); a.push_back(E(5)); r.push(5); chk(a, r); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_insert_own)     // P11
{
   { L a; Seq m; int n = SZ("n", NI) + 1; fill(a, m, n); int j = SZ("which", n), x = m.a[j];
   switch (vp_choice("op", 5)) { case 0: a.push_back(*at(a, j)); m.push(x); break; case 1: a.push_front(*at(a, j)); m.ins(0, x); break;
   case 2: { int p = ARG("pos", n + 1); a.insert(at(a, p), *at(a, j)); m.ins(p, x); break; }
   case 3: { int p = ARG("pos", n + 1), k = ARG("cnt", NC + 2); a.insert(at(a, p), (ttl::size_t)k, *at(a, j)); m.insn(p, k, x); break; }
   case 4: { int k = n + ARG("n", NC + 1); a.resize(k, *at(a, j)); while (m.n < k) m.push(x); break; } }
   chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_reverse)
{
   { L a; Seq m; fill(a, m, SZ("n", NI + 4)); int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.reverse(); UNMOVED(a, a0, f0); m.rev(); chk(a, m); then(a, m); chk(a, m); a.reverse(); m.rev(); chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}

// ------------------------------------------------------------ forward_list: P14
static int edit(FL &c, Seq &m)
{
   int op = vp_choice("op", 16), n = m.n;
   switch (op) {
   case 0: { int x = vp_int("x"); c.push_front(E(x)); m.ins(0, x); break; }
   case 1: if (n) { c.pop_front(); m.del(0, 1); } break;
   case 2: { int p = ARG("after", n + 1), x = vp_int("x"); FL::iterator r = c.insert_after(before(c, p), E(x)); m.ins(p, x); A_(r == at(c, p), "insert_after returns the new element"); break; }
   case 3: { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1), x = vp_int("x"); c.insert_after(before(c, p), (ttl::size_t)k, E(x)); m.insn(p, k, x); break; }
   case 4: { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1); int y[NC + 1]; E s[NC + 1]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); } c.insert_after(before(c, p), (const E *)s, (const E *)s + k); for (int i = 0; i < k; ++i) m.ins(p + i, y[i]); break; }
   case 5: if (n) { int p = ARG("after", n); FL::iterator r = c.erase_after(before(c, p)); m.del(p, p + 1); A_(r == at(c, p), "erase_after returns the following position"); } break;
   case 6: { int p = ARG("after", n + 1), k = ARG("len", n - p + 1); FL::iterator l = at(c, p + k); FL::iterator r = c.erase_after(before(c, p), l); m.del(p, p + k); A_(r == l, "range erase_after returns the end of the range"); vp_reach("erase range"); break; }
   case 7: c.reverse(); m.rev(); break;
   case 8: c.clear(); m.clear(); break;
   case 9: { int k = ARG("n", NC + 2), x = vp_int("x"); c.assign((ttl::size_t)k, E(x)); m.clear(); m.insn(0, k, x); break; }
   case 10: { int k = ARG("n", NC + 2); int y[NC + 2]; E s[NC + 2]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); } c.assign((const E *)s, (const E *)s + k); m.clear(); for (int i = 0; i < k; ++i) m.push(y[i]); break; }
   case 11: { FL o; Seq mo; fill(o, mo, SZ("on", NI + 1)); c.swap(o); Seq t = m; m = mo; mo = t; chk(o, mo); break; }
   case 12: { FL o; Seq mo; fill(o, mo, SZ("on", NI + 1)); FL &r = (c = o); A_(&r == &c, "assignment returns the target"); m = mo; chk(o, mo); break; }
   case 13: { FL o; Seq mo; fill(o, mo, SZ("on", NI + 1)); int p = ARG("after", n + 1); int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); c.splice_after(before(c, p), o); UNMOVED(c, a0, f0); if (!mo.n) vp_reach("splice empty list"); for (int i = 0; i < mo.n; ++i) m.ins(p + i, mo.a[i]); mo.clear(); chk(o, mo); o.push_front(E(1)); mo.push(1); chk(o, mo); break; }
   case 14: { FL o; Seq mo; fill(o, mo, SZ("on", NI) + 1); int p = ARG("after", n + 1), q = ARG("it", mo.n); c.splice_after(before(c, p), o, before(o, q)); m.ins(p, mo.a[q]); mo.del(q, q + 1); chk(o, mo); break; }
   case 15: if (n) { int p = ARG("pos", n), x = vp_int("x"); *at(c, p) = E(x); m.a[p] = x; } break;
   }
   return op;
}
VP_ENTRY(fwd_history) { history<FL>(); }
VP_ENTRY(fwd_ctors) { ctors<FL>(); }
VP_ENTRY(fwd_splice_one)
{
   { FL a; Seq m; fill(a, m, SZ("n", NI + 1)); if (!m.n) return; int p = SZ("after", m.n + 1), q = SZ("it", m.n);   // the element after position q moves after position p
   int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.splice_after(before(a, p), a, before(a, q)); UNMOVED(a, a0, f0);
   int x = m.a[q]; if (p != q && p != q + 1) { m.del(q, q + 1); m.ins(p > q ? p - 1 : p, x); } else vp_reach("splice in place");
   chk(a, m); then(a, m); chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(fwd_splice_range)
{
   { FL a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 1)); int p = ARG("after", ma.n + 1);
   if (vp_choice("same", 2)) {
      int f = ARG("first", ma.n + 1), l = f + ARG("len", ma.n - f + 1); if (p > f && p <= l) return;   // pos inside the range: not allowed
      int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.splice_after(before(a, p), a, before(a, f), at(a, l)); UNMOVED(a, a0, f0);
      int t[512]; for (int i = f; i < l; ++i) t[i - f] = ma.a[i]; int d = l - f; ma.del(f, l); int np = p > l ? p - d : p; for (int i = 0; i < d; ++i) ma.ins(np + i, t[i]);
      if (p == f) vp_reach("splice range onto itself"); if (!d) vp_reach("splice empty range");
   } else {
      fill(b, mb, SZ("nb", NI + 1)); int f = ARG("first", mb.n + 1), l = f + ARG("len", mb.n - f + 1);
      int a0 = vp_heap_allocs(), f0 = vp_heap_frees(); a.splice_after(before(a, p), b, before(b, f), at(b, l)); UNMOVED(a, a0, f0);
      for (int i = f; i < l; ++i) ma.ins(p + i - f, mb.a[i]); mb.del(f, l); if (f == l) vp_reach("splice empty range");
   }
   chk(a, ma); chk(b, mb); if (vp_choice("then", 2)) { then(a, ma); chk(a, ma); } else { then(b, mb); chk(b, mb); } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(fwd_own)
{
   { FL a; Seq m; int n = SZ("n", NI) + 1; fill(a, m, n); int j = SZ("which", n), x = m.a[j];
   if (vp_choice("op", 2)) { a.push_front(*at(a, j)); m.ins(0, x); } else { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1); a.insert_after(before(a, p), (ttl::size_t)k, *at(a, j)); m.insn(p, k, x); }
   chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}

// ------------------------------------------------------------ backward_list: P15, lazy_queue: P16
template<class C> struct IsQ { enum { v = 0 }; };
template<> struct IsQ<Q> { enum { v = 1 }; };
static void only_bl(BL &c, Seq &m, int op)
{
   if (op == 0) { c.reverse(); m.rev(); vp_reach("reverse"); }
   else if (op == 1) { int k = ARG("n", NC + 2), x = vp_int("x"); c.assign((ttl::size_t)k, E(x)); m.clear(); m.insn(0, k, x); }
   else { int k = ARG("n", NC + 2); int y[NC + 2]; E s[NC + 2]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); } c.assign((const E *)s, (const E *)s + k); m.clear(); for (int i = 0; i < k; ++i) m.push(y[i]); }
}
static void only_bl(Q &c, Seq &m, int op)
{
   if (op == 0) { c.roll_head(); if (m.n > 1) { int x = m.a[0]; m.del(0, 1); m.push(x); } vp_reach("roll"); }
   else if (op == 1) { c.cleanup(); vp_reach("cleanup"); }
   else { c.clear(); m.clear(); c.cleanup(); }
}
template<class C> static int edit_tail(C &c, Seq &m)
{
   int op = vp_choice("op", 15), n = m.n;
   switch (op) {
   case 0: { int x = vp_int("x"); c.push_front(E(x)); m.ins(0, x); break; }
   case 1: { int x = vp_int("x"); c.push_back(E(x)); m.push(x); break; }
   case 2: if (n) { c.pop_front(); m.del(0, 1); if (n == 1) vp_reach("pop last"); } break;
   case 3: { int p = ARG("after", n + 1), x = vp_int("x"); typename C::iterator r = c.insert_after(before(c, p), E(x)); m.ins(p, x); A_(r == at(c, p), "insert_after returns the new element"); break; }
   case 4: { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1), x = vp_int("x"); c.insert_after(before(c, p), (ttl::size_t)k, E(x)); m.insn(p, k, x); break; }
   case 5: { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1); int y[NC + 1]; E s[NC + 1]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); s[i] = E(y[i]); } c.insert_after(before(c, p), (const E *)s, (const E *)s + k); for (int i = 0; i < k; ++i) m.ins(p + i, y[i]); vp_reach("insert range"); break; }
   case 6: if (n) { int p = ARG("after", n); typename C::iterator r = c.erase_after(before(c, p)); m.del(p, p + 1); A_(r == at(c, p), "erase_after returns the following position"); if (p == n - 1) vp_reach("erase last"); } break;
   case 7: { int p = ARG("after", n + 1), k = ARG("len", n - p + 1); typename C::iterator l = at(c, p + k); typename C::iterator r = c.erase_after(before(c, p), l); m.del(p, p + k); A_(r == l, "range erase_after returns the end of the range"); break; }
   case 8: c.clear(); m.clear(); vp_reach("clear"); break;
   case 9: { C o; Seq mo; fill(o, mo, SZ("on", NI + 1)); c.swap(o); Seq t = m; m = mo; mo = t; chk(o, mo); int x = vp_int("x"); o.push_back(E(x)); mo.push(x); chk(o, mo); vp_reach("swap"); break; }
   case 10: { C o; Seq mo; fill(o, mo, SZ("on", NI + 1)); C &r = (c = o); A_(&r == &c, "assignment returns the target"); m = mo; chk(o, mo); break; }
   case 11: if (n) { int p = ARG("pos", n), x = vp_int("x"); *at(c, p) = E(x); m.a[p] = x; } break;
   default: only_bl(c, m, op - 12); break;
   }
   return op;
}
static int edit(BL &c, Seq &m) { return edit_tail(c, m); }
static int edit(Q &c, Seq &m) { return edit_tail(c, m); }
// a back insertion always lands at the end, whatever happened before
template<class C> static void tail_history()
{
   { C c; Seq m; fill(c, m, SZ("n", NI + 1));
   for (int i = 0; i < NOPS; ++i) { edit(c, m); chk(c, m);
#if ELT_TRK
      A_(vp_live_objs() == m.n, "exactly the contained elements are alive");
#endif
   }
   int x = vp_int("last"); c.push_back(E(x)); m.push(x); chk(c, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(back_history) { tail_history<BL>(); }
VP_ENTRY(back_ctors) { ctors<BL>(); }
VP_ENTRY(lazy_history) { tail_history<Q>(); }
VP_ENTRY(lazy_ctors)
{
   { Seq m; int k = SZ("n", NI + 2);
   if (vp_choice("ctor", 2)) { int x = vp_int("x"); Q c((ttl::size_t)k, E(x)); m.insn(0, k, x); chk(c, m); edit(c, m); chk(c, m); }
   else { Q o; fill(o, m, k); if (vp_choice("pop", 2) && k) { o.pop_front(); m.del(0, 1); } Q c(o); chk(c, m); Seq mo = m; edit(c, m); chk(c, m); chk(o, mo); } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(lazy_recycle)     // popped nodes are reused before new memory is taken; cleanup releases only unused nodes
{
   { Q c; Seq m; int pool = 0; fill(c, m, SZ("n", NI + 2));
   for (int i = 0; i < NOPS + 2; ++i) {
      int a0 = vp_heap_allocs(), f0 = vp_heap_frees();
      int op = vp_choice("op", 7);
      if (op == 0 || op == 1) { int x = vp_int("x"); if (op) { c.push_back(E(x)); m.push(x); } else { c.push_front(E(x)); m.ins(0, x); }
         if (pool) { --pool; A_(vp_heap_allocs() == a0, "a push reuses a popped node before taking memory"); vp_reach("reuse"); } else A_(vp_heap_allocs() == a0 + 1, "a push takes at most one node"); }
      else if (op == 2) { if (m.n) { c.pop_front(); m.del(0, 1); ++pool; A_(vp_heap_frees() == f0, "a popped node is kept for reuse"); } }
      else if (op == 3) { c.clear(); pool += m.n; m.clear(); A_(vp_heap_frees() == f0, "cleared nodes are kept for reuse"); }
      else if (op == 4) { c.cleanup(); A_(vp_heap_frees() == f0 + pool, "cleanup releases exactly the unused nodes"); pool = 0; vp_reach("cleanup"); }
      else if (op == 5) { if (m.n) { int p = ARG("after", m.n); c.erase_after(before(c, p)); m.del(p, p + 1); ++pool; } }
      else { c.roll_head(); if (m.n > 1) { int x = m.a[0]; m.del(0, 1); m.push(x); } A_(vp_heap_allocs() == a0, "rolling takes no memory"); }
      A_(vp_heap_live() == m.n + pool, "live nodes are the elements and the pool");
#if ELT_TRK
      A_(vp_live_objs() == m.n, "exactly the queued elements are alive");
#endif
      chk(c, m);
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
// values that live in the container itself
template<class C> static void own_tail()
{
   { C a; Seq m; int n = SZ("n", NI) + 1; fill(a, m, n); int j = SZ("which", n), x = m.a[j];
   switch (vp_choice("op", 3)) { case 0: a.push_back(*at(a, j)); m.push(x); break; case 1: a.push_front(*at(a, j)); m.ins(0, x); break;
   case 2: { int p = ARG("after", n + 1), k = ARG("cnt", NC + 1); a.insert_after(before(a, p), (ttl::size_t)k, *at(a, j)); m.insn(p, k, x); break; } }
   chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(back_own) { own_tail<BL>(); }
VP_ENTRY(lazy_own) { own_tail<Q>(); }

// ------------------------------------------------------------ P28 swap, P29 copies, P30 equality (all four)
#if SYMARG || defined LARGE
#define PRE 0
#else
#define PRE vp_choice("pre", 2)
#endif
template<class C> static void swaps()
{
   { C a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 1)); fill(b, mb, SZ("nb", NI + 1)); bool pre = PRE; if (pre) then(a, ma);
   if (pre && vp_choice("direction", 2)) b.swap(a); else a.swap(b);
   chk(a, mb); chk(b, ma);
   if (!ma.n && mb.n) vp_reach("swap with empty"); if (ma.n && !mb.n) vp_reach("swap empty with");
   if (vp_choice("again", 2)) { a.swap(b); chk(a, ma); chk(b, mb); then(a, ma); chk(a, ma); chk(b, mb); } else { then(a, mb); chk(a, mb); chk(b, ma); if (!SYMARG) { then(b, ma); chk(b, ma); chk(a, mb); } } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
template<class C> static void self_swap()
{
   { C a; Seq m; fill(a, m, SZ("n", NI + 1)); C &al = a; a.swap(al); chk(a, m); then(a, m); chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_swap) { swaps<L>(); }
VP_ENTRY(fwd_swap) { swaps<FL>(); }
VP_ENTRY(back_swap) { swaps<BL>(); }
VP_ENTRY(lazy_swap) { swaps<Q>(); }
VP_ENTRY(node_self_swap) { switch (vp_choice("kind", 4)) { case 0: self_swap<L>(); break; case 1: self_swap<FL>(); break; case 2: self_swap<BL>(); break; default: self_swap<Q>(); } }
template<class C> static void copy_indep()
{
   { C a; Seq ma; fill(a, ma, SZ("n", NI + 1)); if (PRE) then(a, ma);
   switch (vp_choice("how", 3)) {
   case 0: { C b(a); Seq mb = ma; chk(b, mb); if (ARG("which", 2)) then(a, ma); else then(b, mb); chk(a, ma); chk(b, mb); vp_reach("copy"); break; }
   case 1: { C b; Seq mb; fill(b, mb, SZ("nb", NI + 1)); C &r = (b = a); A_(&r == &b, "assignment returns the target"); mb = ma; chk(b, mb); chk(a, ma); if (ARG("which", 2)) then(a, ma); else then(b, mb); chk(a, ma); chk(b, mb); vp_reach("assign"); break; }
   case 2: { C &al = a; a = al; chk(a, ma); then(a, ma); chk(a, ma); vp_reach("self"); break; }
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "every node released");
}
VP_ENTRY(list_copy) { copy_indep<L>(); }
VP_ENTRY(fwd_copy) { copy_indep<FL>(); }
VP_ENTRY(back_copy) { copy_indep<BL>(); }
VP_ENTRY(lazy_copy) { copy_indep<Q>(); }
template<class C> static void equality()
{
   C a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 2)); fill(b, mb, SZ("nb", NI + 2));
   bool eq = ma.n == mb.n; for (int i = 0; i < ma.n && i < mb.n; ++i) eq = eq & (ma.a[i] == mb.a[i]);
   A_((a == b) == eq, "equal exactly if same length and equal elements");
   A_((b == a) == eq, "equality is symmetric");
   A_((a != b) == !eq, "inequality is the negation of equality");
   A_(a == a && !(a != a), "a container equals itself");
   C c(a); A_(c == a, "a copy is equal");
   if (eq) vp_reach("equal"); else vp_reach("different"); if (ma.n != mb.n) vp_reach("lengths differ");
   chk(a, ma); chk(b, mb);
}
VP_ENTRY(list_equal) { equality<L>(); }
VP_ENTRY(fwd_equal) { equality<FL>(); }
VP_ENTRY(back_equal) { equality<BL>(); }
