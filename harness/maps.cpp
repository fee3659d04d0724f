// Vector-based maps: vector_map (P17), sorted_vector_map (P18), their lifetimes (P26), swap/copy.
#include "common.h"
#ifndef NH
#define NH 4       // operations
#endif
#ifndef NK
#define NK 4       // keys inserted before the probes
#endif
#ifndef NPRE
#define NPRE 4     // largest initial capacity
#endif
#ifndef BIG
#define BIG 12     // elements of larger maps
#endif
// LARGE maps: an arbitrary edit or an arbitrary probe, otherwise one after the other
#ifdef LARGE
#define EITHER 4
#else
#define EITHER 3
#endif
#ifndef KT
#define KT int
#endif
#ifndef VT
#define VT int
#endif
#ifndef TRK
#define TRK 0      // tracked objects per element
#endif
typedef ttl::vector_map<KT, VT> VM;
typedef VM::value_type PV;
// what the map should contain: unique keys in order of their insertion
struct Assoc {
   int k[160], v[160], n;
   Assoc(): n(0) {}
   int find(int x) const { for (int i = 0; i < n; ++i) if (vp_concretize(k[i] == x)) return i; return -1; }
   void put(int a, int b) { k[n] = a; v[n] = b; ++n; }
   void del(int i) { for (; i + 1 < n; ++i) k[i] = k[i+1], v[i] = v[i+1]; --n; }
};
static void contents(const VM &c, const Assoc &m)
{
   A_((int)c.size() == m.n && c.empty() == (m.n == 0), "size agrees with the association");
   int n = 0;
   for (VM::const_iterator i = c.begin(); i != c.end(); ++i, ++n) {
      A_(n < m.n, "no extra elements");
      bool any = false; for (int j = 0; j < m.n; ++j) any = any | ((val(i->first) == m.k[j]) & (val(i->second) == m.v[j]));
      A_(any, "every element of the map is an inserted pair"); vp_observe(val(i->first));
   }
   A_(n == m.n, "no element is lost"); A_(c.cbegin() == c.begin() && c.cend() == c.end(), "cbegin/cend agree");
#if TRK
   A_(vp_live_objs() == TRK * m.n, "exactly the contained elements are alive");
#endif
}
static void probe(VM &c, const Assoc &m, int p)
{
   const VM &cc = c; KT key(p); int j = m.find(p);
   VM::iterator i = c.find(key); VM::const_iterator ci = cc.find(key);
   A_((i != c.end()) == (j >= 0), "find reports exactly whether the key is present"); A_(ci == i, "find on a const map agrees");
   A_((int)c.count(key) == (j >= 0), "count of a unique key is one if present, zero if absent");
   if (j >= 0) {
      A_(val(i->first) == p && val(i->second) == m.v[j], "find returns the value stored for the key");
      A_(val(c.at(key)) == m.v[j] && val(cc.at(key)) == m.v[j], "at returns the value stored for the key"); vp_reach("probe present");
   } else vp_reach("probe absent");
}
static int vedit(VM &c, Assoc &m)
{
   int op = vp_choice("op", 9);
   switch (op) {
   case 0: { int k = vp_int("k"), v = vp_int("v"), j = m.find(k); ttl::pair<VM::iterator, bool> r = c.insert(PV(KT(k), VT(v)));
      A_(r.second == (j < 0), "insert reports whether the key is new"); A_(val(r.first->first) == k && val(r.first->second) == (j < 0 ? v : m.v[j]), "insert returns the element of the key"); if (j < 0) m.put(k, v); else vp_reach("insert present"); break; }
   case 1: { int k = vp_int("k"), j = m.find(k); VT &r = c[KT(k)]; A_(val(r) == (j < 0 ? 0 : m.v[j]), "subscript returns the stored or a new default value"); if (j < 0) m.put(k, 0); else vp_reach("subscript present"); break; }
   case 2: { int k = vp_int("k"), v = vp_int("v"), j = m.find(k); c[KT(k)] = VT(v); if (j < 0) m.put(k, v); else m.v[j] = v; break; }
   case 3: if (m.n) { int p = vp_choice("pos", m.n); int k = val((c.begin() + p)->first); int j = m.find(k); A_(j >= 0, "elements have inserted keys"); c.erase(c.begin() + p); m.del(j); vp_reach("erase"); } break;
   case 4: if (m.n) { int k = val((c.end() - 1)->first); int j = m.find(k); A_(j >= 0, "elements have inserted keys"); c.pop_back(); m.del(j); } break;
   case 5: c.clear(); m.n = 0; break;
   case 6: { int k = vp_int("k"), v = vp_int("v"), j = m.find(k); if (j >= 0) { c.at(KT(k)) = VT(v); m.v[j] = v; } break; }
   case 7: c.reserve(vp_choice("cap", 6)); break;
   case 8: { int k = vp_int("k"), v = vp_int("v"), j = m.find(k); VM::iterator i = c.find(KT(k)); if (i != c.end()) { A_(j >= 0, "found keys were inserted"); i->second = VT(v); m.v[j] = v; } break; }
   }
   return op;
}
#define DONE() A_(vp_live_objs() == 0, "every element destroyed"); A_(vp_heap_live() == 0, "all memory released")
VP_ENTRY(vmap_history) { { VM c; Assoc m; for (int i = 0; i < NH; ++i) { vedit(c, m); contents(c, m); } } DONE(); }
VP_ENTRY(vmap_probe) { { VM c; Assoc m; for (int i = 0; i < NK; ++i) { int k = vp_int("k"), v = vp_int("v"), j = m.find(k); c.insert(PV(KT(k), VT(v))); if (j < 0) m.put(k, v); }
   if (vp_choice("edit", 2)) vedit(c, m); int p = vp_int("p"); probe(c, m, p); contents(c, m); } DONE(); }
VP_ENTRY(vmap_big)      // concrete distinct keys, arbitrary probe and edits
{
   { VM c; Assoc m; int n = SZ("n", BIG + 1); for (int i = 0; i < n; ++i) { int k = (i * 7) % 127, v = vp_int("v"); c.insert(PV(KT(k), VT(v))); m.put(k, v); }
   int act = EITHER == 3 ? 3 : vp_choice("act", 2);
   if (act != 0) vedit(c, m); if (act != 1) { int p = vp_int("p"); probe(c, m, p); } contents(c, m); } DONE();
}
VP_ENTRY(vmap_dups)     // the vector interface admits equal keys: lookups use the first, count counts them all
{
   { VM c; int n = vp_choice("n", NK + 1), k[NK + 1], v[NK + 1]; for (int i = 0; i < n; ++i) { k[i] = vp_int("k"); v[i] = vp_int("v"); c.push_back(PV(KT(k[i]), VT(v[i]))); }
   int p = vp_int("p"); int cnt = 0, first = -1; for (int i = 0; i < n; ++i) if (vp_concretize(k[i] == p)) { ++cnt; if (first < 0) first = i; }
   const VM &cc = c; KT key(p);
   A_((int)cc.count(key) == cnt, "count is the number of elements with the key"); vp_observe(cnt);
   A_(c.find(key) == (first < 0 ? c.end() : c.begin() + first), "find returns the first element with the key, or the end"); A_(cc.find(key) == c.find(key), "const find agrees");
   if (cnt > 1) vp_reach("equal keys"); if (cnt) A_(val(c[key]) == v[first], "subscript returns the first element's value"); A_((int)c.size() == n, "lookups insert nothing"); } DONE();
}
VP_ENTRY(vmap_copy)
{
   { VM a; Assoc ma; int n = vp_choice("n", NK + 1); for (int i = 0; i < n; ++i) { int k = i * 3, v = vp_int("v"); a.insert(PV(KT(k), VT(v))); ma.put(k, v); }
   VM b(a); Assoc mb = ma;
   if (vp_choice("which", 2)) vedit(a, ma); else vedit(b, mb);
   int p = vp_int("p"); probe(a, ma, p); probe(b, mb, p); a.swap(b); probe(a, mb, p); probe(b, ma, p); } DONE();
}

// ------------------------------------------------------------ sorted_vector_map
struct KGreater { bool operator()(const KT &a, const KT &b) const { return b < a; } };
typedef ttl::sorted_vector_map<KT, VT> SM;
typedef ttl::sorted_vector_map<KT, VT, KGreater> SG;
template<class C> struct Ord { static bool lt(int a, int b) { return a < b; } };
template<> struct Ord<SG> { static bool lt(int a, int b) { return a > b; } };
// the sorted contents
template<class C> struct Tab {
   int k[160], v[160], n;
   Tab(): n(0) {}
   int lb(int x) const { int i = 0; while (i < n && vp_concretize(Ord<C>::lt(k[i], x))) ++i; return i; }
   bool at(int i, int x) const { return i < n && vp_concretize(k[i] == x); }
   void put(int i, int a, int b) { for (int j = n; j > i; --j) k[j] = k[j-1], v[j] = v[j-1]; k[i] = a; v[i] = b; ++n; }
};
template<class C> static void scontents(C &c, const Tab<C> &m)
{
   const C &cc = c;
   A_((int)c.size() == m.n && c.empty() == (m.n == 0), "size agrees");
   int n = 0;
   for (typename C::iterator i = c.begin(); i != c.end(); ) {
      A_(n < m.n, "no extra elements"); A_((val(i->first) == m.k[n]) & (val(i->second) == m.v[n]), "iteration is in key order with the inserted pairs"); vp_observe(val(i->first));
      if (n) { typename C::iterator j = i; --j; A_(Ord<C>::lt(val(j->first), val(i->first)), "keys strictly increase"); }
      ++n; if (n & 1) { typename C::iterator o = i++; A_(val((*o).first) == m.k[n-1], "post-increment returns the old position"); } else ++i;
   }
   A_(n == m.n, "no element is lost");
   for (typename C::const_iterator i = cc.end(); i != cc.begin(); ) { if (n & 1) --i; else i--; A_(n > 0, "backward: no extra elements"); --n; A_((val((*i).first) == m.k[n]) & (val(i->second) == m.v[n]), "backward iteration agrees"); }
   A_(n == 0, "backward: no element is lost"); A_(cc.cbegin() == cc.begin() && cc.cend() == cc.end(), "cbegin/cend agree");
#if TRK
   A_(vp_live_objs() == TRK * m.n, "exactly the contained elements are alive");
#endif
}
template<class C> static typename C::iterator sat(C &c, int p) { typename C::iterator i = c.begin(); while (p-- > 0) ++i; return i; }
template<class C> static void sprobe(C &c, const Tab<C> &m, int p)
{
   const C &cc = c; KT key(p); int j = m.lb(p); bool f = m.at(j, p);
   typename C::iterator b = sat(c, j), e = c.end(); typename C::const_iterator cb(b), ce(e);
   typename C::iterator u = f ? sat(c, j + 1) : b; typename C::const_iterator cu(u);
   typename C::iterator w = f ? b : e; typename C::const_iterator cw(w);
   A_(c.find(key) == w, "find returns the element of the key or the end"); A_(cc.find(key) == cw, "find on a const map agrees");
   A_((int)cc.count(key) == (f ? 1 : 0), "count is one exactly for a present key");
   A_(c.lower_bound(key) == b && cc.lower_bound(key) == cb, "lower bound is the first key not less than the probe");
   A_(c.upper_bound(key) == u && cc.upper_bound(key) == cu, "upper bound is the first key greater than the probe");
   ttl::pair<typename C::iterator, typename C::iterator> r = c.equal_range(key); ttl::pair<typename C::const_iterator, typename C::const_iterator> cr = cc.equal_range(key);
   A_(r.first == b && r.second == u, "equal range is from the lower to the upper bound"); A_(cr.first == cb && cr.second == cu, "equal range of a const map agrees");
   if (f) { A_(val(c.at(key)) == m.v[j] && val(cc.at(key)) == m.v[j], "at returns the stored value"); vp_reach("sorted probe present"); } else vp_reach("sorted probe absent");
   A_(c.key_comp()(KT(1), KT(2)) == Ord<C>::lt(1, 2), "key_comp is the ordering");
}
template<class C> static void sinsert(C &c, Tab<C> &m, int k, int how)
{
   int j = m.lb(k); bool f = m.at(j, k);
   if (how == 0) { int v = vp_int("v"); ttl::pair<typename C::iterator, bool> r = c.insert(ttl::make_pair(KT(k), VT(v))); A_(r.second == !f, "insert reports whether the key is new");
      if (!f) m.put(j, k, v); else vp_reach("sorted insert present"); A_(r.first == sat(c, j), "insert returns the element of the key"); A_(val(r.first->second) == m.v[j], "insert keeps the value stored first"); }
   else if (how == 1) { int v = vp_int("v"); c[KT(k)] = VT(v); if (f) m.v[j] = v; else m.put(j, k, v); }
   else { VT &r = c[KT(k)]; A_(val(r) == (f ? m.v[j] : 0), "subscript returns the stored or a new default value"); if (!f) m.put(j, k, 0); }
}
template<class C> static void smake(C *&c, int cap) { c = cap < 0 ? new C() : new C((ttl::size_t)cap); }
template<class C> static void shist(int n)
{
   { C *c; smake(c, SZ("capacity", NPRE + 2) - 1); Tab<C> m; vp_reach("any capacity");
   for (int i = 0; i < n; ++i) {
      int op = vp_choice("op", 5);
      if (op < 3) sinsert(*c, m, vp_int("k"), op);
      else if (op == 3) { c->clear(); m.n = 0; vp_reach("sorted clear"); }
      else { int k = vp_int("k"), v = vp_int("v"), j = m.lb(k); bool f = m.at(j, k); typename C::iterator it = c->find(KT(k)); if (it != c->end()) { A_(f, "found keys were inserted"); it->second = VT(v); m.v[j] = v; } }
      scontents(*c, m);
   }
   delete c; } DONE();
}
VP_ENTRY(smap_history) { shist<SM>(NH); }
VP_ENTRY(smapg_history) { shist<SG>(NH); }
template<class C> static void sinsall()
{
   { C *c; smake(c, SZ("capacity", NPRE + 2) - 1); Tab<C> m; int how = vp_choice("how", 3);
   for (int i = 0; i < NK; ++i) sinsert(*c, m, vp_int("k"), how);
   scontents(*c, m); int p = vp_int("p"); sprobe(*c, m, p); scontents(*c, m); delete c; } DONE();
}
VP_ENTRY(smap_probe) { sinsall<SM>(); }
VP_ENTRY(smapg_probe) { sinsall<SG>(); }
VP_ENTRY(smap_big)       // long histories of known keys, then arbitrary ones
{
   { SM *c; smake(c, SZ("capacity", NPRE + 2) - 1); Tab<SM> m; int n = SZ("n", BIG + 1), pat = vp_choice("pattern", 3);
   for (int i = 0; i < n; ++i) sinsert(*c, m, pat == 0 ? 2 * i : pat == 1 ? 2 * (BIG - i) : 2 * ((i * 7) % 127), i % 3);
   scontents(*c, m); int act = vp_choice("act", EITHER); if (act < 3) { sinsert(*c, m, vp_int("k"), act); scontents(*c, m); }
   if (act == 3 || EITHER == 3) { int p = vp_int("p"); sprobe(*c, m, p); } delete c; } DONE();
}
VP_ENTRY(smap_copy)
{
   { SM *a; smake(a, vp_choice("capacity", NPRE + 2) - 1); Tab<SM> ma; int n = vp_choice("n", NK + 1); for (int i = 0; i < n; ++i) sinsert(*a, ma, 3 * ((i * 3) % 7), 0);
   { SM b(*a); Tab<SM> mb = ma;
   if (vp_choice("which", 2)) sinsert(*a, ma, vp_int("k"), vp_choice("how", 3)); else sinsert(b, mb, vp_int("k"), vp_choice("how", 3));
#if !TRK
   scontents(*a, ma); scontents(b, mb);
#endif
   int p = vp_int("p"); sprobe(*a, ma, p); sprobe(b, mb, p); vp_reach("sorted copy"); }
   scontents(*a, ma); delete a; } DONE();
}
