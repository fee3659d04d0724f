// Contiguous sequences: vector, fixed_vector.
#include "common.h"
#ifndef NI
#define NI 3       // largest initial size
#endif
#ifndef NS
#define NS 2       // largest spare capacity
#endif
#ifndef NOPS
#define NOPS 2     // operations
#endif
#ifndef NC
#define NC 2       // largest count / range length of one operation
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef FN
#define FN 4       // capacity of the fixed vector
#endif
#ifndef SYMARG
#define SYMARG 0
#endif
#if SYMARG     // positions and counts: symbolic, or explored case by case
#define ARG(name, n) sym_arg(name, n)
#else
#define ARG(name, n) SZ(name, n)
#endif
#ifndef ELT_TRK
#define ELT_TRK 0
#endif
typedef ELT E;
static inline int sym_arg(const char *name, int n) { int x = vp_int(name); vp_assume((x >= 0) & (x < n)); return x; }
typedef ttl::vector<E> V;
typedef ttl::fixed_vector<E, FN> F;
template<class C> struct Kind { enum { fixed = 0, cap = 1000000 }; };
template<> struct Kind<F> { enum { fixed = 1, cap = FN }; };
template<class C> static void trunc(Seq &m) { if (m.n > (int)Kind<C>::cap) m.n = Kind<C>::cap; }
static int imin(int a, int b) { return a < b ? a : b; }

template<class C> static void chk(C &v, const Seq &m)
{
   const C &c = v;
   A_((int)v.size() == m.n, "size agrees with the abstract sequence");
   A_(v.empty() == (m.n == 0), "empty agrees");
   A_(v.size() <= v.capacity(), "size never exceeds capacity");
   A_(v.end() - v.begin() == m.n && c.cend() - c.cbegin() == m.n && c.end() - c.begin() == m.n, "begin..end spans exactly the elements");
   for (int i = 0; i < m.n; ++i) {
      A_(val(v[i]) == m.a[i], "element values agree with the abstract sequence");
      A_(&v[i] == &v[0] + i && &c[i] == &v[i] && &v.at(i) == &v[i] && &c.at(i) == &v[i] && &*(v.begin() + i) == &v[i] && v.data() + i == &v[i] && c.data() + i == &v[i], "elements are contiguous and reachable every way");
      vp_observe(val(v[i]));
   }
   if (m.n) { A_(&v.front() == &v[0] && &c.front() == &v[0], "front is the first element"); A_(&v.back() == &v[m.n-1] && &c.back() == &v[m.n-1], "back is the last element"); }
   if (Kind<C>::fixed) A_(v.capacity() == (unsigned)Kind<C>::cap && v.max_size() == (unsigned)Kind<C>::cap, "capacity of a fixed vector is constant");
#if ELT_TRK
   A_(vp_live_objs() >= m.n, "every element is alive");
#endif
}
template<class C> static void chk_full(C &) {}
template<> void chk_full<F>(F &v) { A_(v.full() == (v.size() == FN), "full() tells whether the capacity is used up"); }

static void fill(V &v, Seq &m, int n, int spare)
{
   if (n + spare) v.reserve(n + spare);
   for (int i = 0; i < n; ++i) { int x = vp_int("x"); v.push_back(E(x)); m.push(x); }
}
static void fill(F &v, Seq &m, int n, int) { for (int i = 0; i < n; ++i) { int x = vp_int("x"); v.push_back(E(x)); m.push(x); trunc<F>(m); } }

enum { PUSH, POP, INS1, INSN, INSR, ERA1, ERAR, RSZ, RSZV, ASGN, ASGR, CLR, SUBS, RSV, SWP, OPEQ, NOPK };
static void do_reserve(V &v, int n) { v.reserve(n); A_((int)v.capacity() >= n, "after reserve(n) the capacity is at least n"); }
static void do_reserve(F &, int) {}
// one editing operation; the abstract sequence is edited the same way
template<class C> static int edit(C &v, Seq &m)
{
   int op = vp_choice("op", NOPK), n = m.n;
   switch (op) {
   case PUSH: { int x = vp_int("x"); v.push_back(E(x)); m.push(x); trunc<C>(m); vp_reach("push"); break; }
   case POP: if (n) { v.pop_back(); m.del(n-1, n); vp_reach("pop"); } break;
   case INS1: { int p = ARG("pos", n + 1), x = vp_int("x"); typename C::iterator r = v.insert(v.begin() + p, E(x)); m.ins(p, x); trunc<C>(m);
      A_(r - v.begin() == p, "insert returns the position of the inserted element"); vp_reach("insert"); break; }
   case INSN: { int p = ARG("pos", n + 1), k = ARG("cnt", NC + 1), x = vp_int("x"); typename C::iterator r = v.insert(v.begin() + p, (ttl::size_t)k, E(x)); m.insn(p, k, x); trunc<C>(m);
      A_(r - v.begin() == p, "counted insert returns the position of the first inserted element"); vp_reach("insert n"); break; }
   case INSR: { int p = ARG("pos", n + 1), k = ARG("cnt", NC + 1); int y[NC + 1]; for (int i = 0; i < k; ++i) y[i] = vp_int("y");
      E src[NC + 1]; for (int i = 0; i < k; ++i) src[i] = E(y[i]);
      typename C::iterator r = v.insert(v.begin() + p, (const E *)src, (const E *)src + k); for (int i = 0; i < k; ++i) m.ins(p + i, y[i]); trunc<C>(m);
      A_(r - v.begin() == p, "range insert returns the position of the first inserted element"); for (int i = 0; i < k; ++i) A_(val(src[i]) == y[i], "the inserted range is not modified"); vp_reach("insert range"); break; }
   case ERA1: if (n) { int p = ARG("pos", n); typename C::iterator r = v.erase(v.begin() + p); m.del(p, p + 1); A_(r - v.begin() == p, "erase returns the position after the erased element"); vp_reach("erase"); } break;
   case ERAR: { int p = ARG("first", n + 1), q = p + ARG("len", n - p + 1); typename C::iterator r = v.erase(v.begin() + p, v.begin() + q); m.del(p, q); A_(r - v.begin() == p, "range erase returns the position after the erased elements"); if (p == q) vp_reach("erase empty"); else vp_reach("erase range"); break; }
   case RSZ: { int k = ARG("n", n + NC + 1); v.resize(k); while (m.n < k) m.push(0); m.n = k; trunc<C>(m); vp_reach("resize"); break; }
   case RSZV: { int k = ARG("n", n + NC + 1), x = vp_int("x"); v.resize(k, E(x)); while (m.n < k) m.push(x); m.n = k; trunc<C>(m); vp_reach("resize value"); break; }
   case ASGN: { int k = ARG("n", n + NC + 1), x = vp_int("x"); v.assign((ttl::size_t)k, E(x)); m.clear(); m.insn(0, k, x); trunc<C>(m); vp_reach("assign n"); break; }
   case ASGR: { int k = ARG("n", NC + 2); int y[NC + 2]; for (int i = 0; i < k; ++i) y[i] = vp_int("y"); E src[NC + 2]; for (int i = 0; i < k; ++i) src[i] = E(y[i]);
      v.assign((const E *)src, (const E *)src + k); m.clear(); for (int i = 0; i < k; ++i) m.push(y[i]); trunc<C>(m); vp_reach("assign range"); break; }
   case CLR: v.clear(); m.clear(); vp_reach("clear"); break;
   case SUBS: if (n) { int p = ARG("pos", n), x = vp_int("x"); v[p] = E(x); m.a[p] = x; vp_reach("subscript"); } break;
   case RSV: do_reserve(v, ARG("n", n + NC + 1)); vp_reach("reserve"); break;
   case SWP: { C o; Seq mo; fill(o, mo, SZ("on", NI + 1), 0); v.swap(o); Seq t = m; m = mo; mo = t; chk(o, mo); vp_reach("swap"); break; }
   case OPEQ: { C o; Seq mo; fill(o, mo, SZ("on", NI + 1), vp_choice("os", 2)); C &r = (v = o); A_(&r == &v, "assignment returns the target"); m = mo; chk(o, mo); vp_reach("operator="); break; }
   }
   return op;
}
template<class C> static void history()
{
   { C v; Seq m; fill(v, m, SZ("n", NI + 1), vp_choice("spare", Kind<C>::fixed ? 1 : NS + 1));
   for (int i = 0; i < NOPS; ++i) { edit(v, m); chk(v, m); chk_full(v); }
#if ELT_TRK
   A_(vp_live_objs() == m.n, "exactly the contained elements are alive");
#endif
   if (Kind<C>::fixed) A_(vp_heap_allocs() == 0, "a fixed vector never allocates"); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_history) { history<V>(); }
VP_ENTRY(fixed_history) { history<F>(); }
// constructors
template<class C> static void ctors()
{
   { Seq m; int k = SZ("n", NI + 3);
   switch (vp_choice("ctor", 4)) {
   case 0: { C v((ttl::size_t)k); for (int i = 0; i < k; ++i) m.push(0); trunc<C>(m); chk(v, m); vp_reach("ctor n"); break; }
   case 1: { int x = vp_int("x"); C v((ttl::size_t)k, E(x)); m.insn(0, k, x); trunc<C>(m); chk(v, m); vp_reach("ctor n x"); edit(v, m); chk(v, m); break; }
   case 2: { int y[NI + 3]; E src[NI + 3]; for (int i = 0; i < k; ++i) { y[i] = vp_int("y"); src[i] = E(y[i]); m.push(y[i]); } C v((const E *)src, (const E *)src + k); trunc<C>(m); chk(v, m); vp_reach("ctor range"); edit(v, m); chk(v, m); break; }
   case 3: { C o; fill(o, m, imin(k, NI), vp_choice("spare", 2)); C v(o); chk(v, m); vp_reach("ctor copy"); Seq mo = m; edit(v, m); chk(v, m); chk(o, mo); break; }
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_ctors) { ctors<V>(); }
VP_ENTRY(fixed_ctors) { ctors<F>(); }

// ------------------------------------------------------------ P09: capacity promises
VP_ENTRY(vector_capacity)
{
   V v; Seq m; fill(v, m, SZ("n", NI + 1), vp_choice("spare", NS + 1));
   for (int i = 0; i < NOPS; ++i) {
      ttl::size_t cap = v.capacity(); int allocs = vp_heap_allocs(); const E *d = v.data(); int n0 = m.n;
      int keep[512]; for (int j = 0; j < n0; ++j) keep[j] = m.a[j];
      int op = edit(v, m);
      if (op == SWP || op == OPEQ) { A_(op == SWP || v.capacity() >= cap, "assignment does not shrink the capacity"); continue; }
      A_(v.capacity() >= cap, "capacity never shrinks");
      A_(v.size() <= v.capacity(), "size never exceeds capacity");
      if (op == RSV ? v.capacity() == cap : m.n <= (int)cap) {
         if (op == INSR || op == ASGR || cap != 0 || ELT_TRK == 0) { }
         A_(vp_heap_allocs() == allocs, "no allocation while the size stays within the capacity");
         A_(v.data() == d, "elements are not moved to other storage while the size stays within the capacity");
         A_(v.capacity() == cap, "capacity is unchanged while it suffices");
         vp_reach("within capacity");
      } else vp_reach("exceeds capacity");
      if (op == RSV) { A_(m.n == n0, "reserve keeps the size"); for (int j = 0; j < n0; ++j) A_(val(v[j]) == keep[j], "reserve keeps the contents"); }
   }
   chk(v, m);
}
VP_ENTRY(vector_reserve_any)   // any requested capacity
{
   V v; Seq m; fill(v, m, SZ("n", NI + 1), vp_choice("spare", NS + 1));
   ttl::size_t cap = v.capacity(); int allocs = vp_heap_allocs();
   int r = vp_range("r", 0, 8); r = (int)vp_concretize(r);
   v.reserve(r);
   A_((int)v.capacity() >= r, "after reserve(n) the capacity is at least n");
   A_(v.capacity() >= cap, "capacity never shrinks");
   if (r <= (int)cap) { A_(vp_heap_allocs() == allocs, "reserving what is there does not allocate"); vp_reach("reserve enough"); } else vp_reach("reserve more");
   chk(v, m); int a2 = vp_heap_allocs(); const E *d = v.data();
   while (m.n < (int)v.capacity()) { int x = vp_int("x"); v.push_back(E(x)); m.push(x); }
   A_(vp_heap_allocs() == a2 && v.data() == d, "filling up to the capacity does not allocate or move");
   chk(v, m);
}
// ------------------------------------------------------------ P10: fixed vector, any requested count
VP_ENTRY(fixed_any_count)
{
   { F v; Seq m; fill(v, m, SZ("n", FN + 1), 0);
   uint64_t c = vp_u64("count"); int x = vp_int("x"); int op = vp_choice("op", 5), p = 0;
   switch (op) {
   case 0: p = SZ("pos", m.n + 1); v.insert(v.begin() + p, (ttl::size_t)c, E(x)); break;
   case 1: v.resize((ttl::size_t)c); x = 0; p = m.n; break;
   case 2: v.resize((ttl::size_t)c, E(x)); p = m.n; break;
   case 3: v.assign((ttl::size_t)c, E(x)); break;
   default: v.clear(); { F w((ttl::size_t)c, E(x)); v = w; } break;
   }
   int cc = (int)vp_concretize(c > FN ? FN + 1 : (int)c);
   if (op == 0) m.insn(p, cc, x);
   else if (op == 1 || op == 2) { while (m.n < cc) m.push(x); if (cc < m.n) m.n = cc; }
   else { m.clear(); m.insn(0, cc, x); }
   trunc<F>(m); chk(v, m); chk_full(v); if (cc > FN) vp_reach("more than fits"); else vp_reach("fits");
   A_(vp_heap_allocs() == 0, "a fixed vector never allocates"); }
   A_(vp_live_objs() == 0, "every element destroyed");
}
// ------------------------------------------------------------ P11: arguments inside the container
template<class C> static void alias()
{
   { C v; Seq m; int n = SZ("n", NI) + 1; fill(v, m, n, vp_choice("spare", Kind<C>::fixed ? 1 : NS + 1));
   int n0 = m.n, j = SZ("which", n0), x = m.a[j];
   switch (vp_choice("op", 6)) {
   case 0: v.push_back(v[j]); m.push(x); break;
   case 1: { int p = SZ("pos", n0 + 1); typename C::iterator r = v.insert(v.begin() + p, v[j]); m.ins(p, x); A_(r - v.begin() == p, "insert returns the position"); vp_reach("alias insert"); break; }
   case 2: { int p = SZ("pos", n0 + 1), k = SZ("cnt", NC + 2); v.insert(v.begin() + p, (ttl::size_t)k, v[j]); m.insn(p, k, x); break; }
   case 3: { int k = SZ("n", n0 + NC + 1); if (k < n0) k = n0; v.resize(k, v[j]); while (m.n < k) m.push(x); break; }
   case 4: { int p = SZ("pos", n0 + 1); v.insert(v.begin() + p, (ttl::size_t)1, v.back()); m.ins(p, m.a[n0-1]); break; }
   case 5: { int p = SZ("pos", n0); v[p] = v[j]; m.a[p] = x; break; }
   }
   trunc<C>(m); chk(v, m); }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_alias) { alias<V>(); }
VP_ENTRY(fixed_alias) { alias<F>(); }

// ------------------------------------------------------------ P28: swap
// the edit after a swap or a copy: any; with large containers one at either end
#ifdef LARGE
template<class C> static void then(C &v, Seq &m)
{
   switch (vp_choice("op", 4)) {
   case 0: { int x = vp_int("x"); v.push_back(E(x)); m.push(x); trunc<C>(m); break; }
   case 1: if (m.n) { v.erase(v.begin()); m.del(0, 1); } break;
   case 2: if (m.n) { int p = m.n / 2, x = vp_int("x"); v[p] = E(x); m.a[p] = x; } break;
   case 3: v.resize(m.n + 9); for (int i = 0; i < 9; ++i) m.push(0); trunc<C>(m); break;
   }
}
#else
template<class C> static void then(C &v, Seq &m) { edit(v, m); }
#endif
#if SYMARG || defined LARGE
#define PRE 0
#else
#define PRE vp_choice("pre", 2)
#endif
template<class C> static void swaps()
{
   { C a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 2), vp_choice("sa", 2)); fill(b, mb, SZ("nb", NI + 2), vp_choice("sb", 2));
   int ops = PRE; if (ops) then(a, ma);
   const E *da = a.data(), *db = b.data(); (void)da; (void)db;
   a.swap(b); chk(a, mb); chk(b, ma); if (ma.n > mb.n) vp_reach("swap longer"); if (ma.n < mb.n) vp_reach("swap shorter"); if (!ma.n || !mb.n) vp_reach("swap empty");
   if (vp_choice("again", 2)) { a.swap(b); chk(a, ma); chk(b, mb); }
   else { then(a, mb); chk(a, mb); chk(b, ma); int x = vp_int("x"); b.push_back(E(x)); ma.push(x); trunc<C>(ma); chk(b, ma); chk(a, mb); } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_swap) { swaps<V>(); }
VP_ENTRY(fixed_swap) { swaps<F>(); }
template<class C> static void self_swap()
{
   { C a; Seq m; fill(a, m, SZ("n", NI + 1), 0); C &al = a; a.swap(al); chk(a, m); }
   A_(vp_live_objs() == 0, "every element destroyed");
}
VP_ENTRY(vector_self_swap) { self_swap<V>(); }
VP_ENTRY(fixed_self_swap) { self_swap<F>(); }

// ------------------------------------------------------------ P29: copies
template<class C> static void copy_indep()
{
   { C a; Seq ma; fill(a, ma, SZ("n", NI + 1), vp_choice("spare", 2)); if (PRE) then(a, ma);
   switch (vp_choice("how", 3)) {
   case 0: { C b(a); Seq mb = ma; chk(b, mb); if (vp_choice("which", 2)) { then(a, ma); } else then(b, mb); chk(a, ma); chk(b, mb); vp_reach("copy"); break; }
   case 1: { C b; Seq mb; fill(b, mb, SZ("nb", NI + 1), vp_choice("sb", 2)); C &r = (b = a); A_(&r == &b, "assignment returns the target"); mb = ma; chk(b, mb); chk(a, ma); if (vp_choice("which", 2)) then(a, ma); else then(b, mb); chk(a, ma); chk(b, mb); vp_reach("assign"); break; }
   case 2: { C &al = a; a = al; chk(a, ma); then(a, ma); chk(a, ma); vp_reach("self"); break; }
   } }
   A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released");
}
VP_ENTRY(vector_copy) { copy_indep<V>(); }
VP_ENTRY(fixed_copy) { copy_indep<F>(); }

// ------------------------------------------------------------ P30: equality
template<class C> static void equality()
{
   C a, b; Seq ma, mb; fill(a, ma, SZ("na", NI + 2), vp_choice("sa", 2)); fill(b, mb, SZ("nb", NI + 2), vp_choice("sb", 2));
   bool eq = ma.n == mb.n; for (int i = 0; i < ma.n && i < mb.n; ++i) eq = eq & (ma.a[i] == mb.a[i]);
   A_((a == b) == eq, "equal exactly if same length and equal elements");
   A_((b == a) == eq, "equality is symmetric");
   A_((a != b) == !eq, "inequality is the negation of equality");
   A_(a == a, "a container equals itself"); A_(!(a != a), "a container does not differ from itself");
   C c(a); A_(c == a, "a copy is equal");
   if (eq) vp_reach("equal"); else vp_reach("different"); if (ma.n != mb.n) vp_reach("lengths differ");
   chk(a, ma); chk(b, mb);
}
VP_ENTRY(vector_equal) { equality<V>(); }
VP_ENTRY(fixed_equal) { equality<F>(); }
