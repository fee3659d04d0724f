#ifndef COMMON_H
#define COMMON_H
#include "vp.h"
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
typedef unsigned long ul;
#define A_(c,m) vp_assert((c),m)
// Element type whose lifetime is tracked: every construction, use and destruction
// is checked against the set of live objects.
struct Trk {
   int v;
   Trk(): v(0) { vp_ctor(this); }
   Trk(int x): v(x) { vp_ctor(this); }
   Trk(const Trk &o): v((vp_use(&o), o.v)) { vp_ctor(this); }
   Trk &operator=(const Trk &o) { vp_use(this); vp_use(&o); v = o.v; return *this; }
   ~Trk() { vp_dtor(this); v = -77; }
   int get() const { vp_use(this); return v; }
};
inline bool operator==(const Trk &a, const Trk &b) { vp_use(&a); vp_use(&b); return a.v == b.v; }
inline bool operator!=(const Trk &a, const Trk &b) { return !(a == b); }
inline bool operator<(const Trk &a, const Trk &b) { vp_use(&a); vp_use(&b); return a.v < b.v; }
#ifdef VP_PERMISSIVE
inline bool operator>(const Trk &a, const Trk &b) { return b < a; }
inline bool operator<=(const Trk &a, const Trk &b) { return !(b < a); }
inline bool operator>=(const Trk &a, const Trk &b) { return !(a < b); }
#endif
inline int val(int x) { return x; }
inline int val(const Trk &x) { return x.get(); }
// A larger element type, to see that no part of an element is left behind.
struct Wide {
   int v; long chk[2];
   Wide(): v(0) { chk[0] = chk[1] = ~0L; }
   Wide(int x): v(x) { chk[0] = chk[1] = ~(long)x; }
};
inline int val(const Wide &x) { vp_assert((x.chk[0] == ~(long)x.v) & (x.chk[1] == ~(long)x.v), "elements are kept whole"); return x.v; }
inline bool operator==(const Wide &a, const Wide &b) { return val(a) == val(b); }
inline bool operator!=(const Wide &a, const Wide &b) { return val(a) != val(b); }
inline bool operator<(const Wide &a, const Wide &b) { return val(a) < val(b); }
#ifdef VP_PERMISSIVE
inline bool operator>(const Wide &a, const Wide &b) { return b < a; }
inline bool operator<=(const Wide &a, const Wide &b) { return !(b < a); }
inline bool operator>=(const Wide &a, const Wide &b) { return !(a < b); }
#endif
// A size, count or position below n: every one, or (LARGE) those near powers of two and near n.
#ifdef LARGE
static inline int vp_edge(const char *name, int n)
{
#if LARGE > 1
   static const int e[] = { 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256 };
#else
   static const int e[] = { 0, 1, 2, 7, 8, 9, 16, 17, 33, 64 };
#endif
   int c[32], k = 0;
   for (int i = 0; i < (int)(sizeof(e) / sizeof(*e)); ++i) if (e[i] < n - 2) c[k++] = e[i];
   if (n > 1) c[k++] = n - 2; c[k++] = n - 1; return c[vp_choice(name, k)];
}
#define SZ(name, n) vp_edge(name, n)
#else
#define SZ(name, n) vp_choice(name, n)
#endif
// Abstract sequence: concrete length, arbitrary (symbolic) values.
struct Seq {
   int a[512]; int n;
   Seq(): n(0) {}
   void ins(int pos, int x) { for (int i = n; i > pos; --i) a[i] = a[i-1]; a[pos] = x; ++n; }
   void insn(int pos, int c, int x) { for (int i = 0; i < c; ++i) ins(pos, x); }
   void del(int first, int last) { int d = last - first; for (int i = last; i < n; ++i) a[i-d] = a[i]; n -= d; }
   void push(int x) { a[n++] = x; }
   void clear() { n = 0; }
   void rev() { for (int i = 0, j = n - 1; i < j; ++i, --j) { int t = a[i]; a[i] = a[j]; a[j] = t; } }
};
#endif
