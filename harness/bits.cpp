// bitset: single bits (P19), logic and shifts (P20), conversions (P21), equality (P30).
#include "common.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef WIN
#define WIN 4      // symbolic bits of one shift case (the rest is a fixed pattern)
#endif
#ifndef SLEN
#define SLEN 4     // string characters beyond the width, and arbitrary characters
#endif
#ifndef FULL
#define FULL 8     // widths up to FULL are shifted with all bits arbitrary
#endif
#ifndef WIDTHS
#define WIDTHS W(1) W(2) W(7) W(31) W(32) W(33) W(63) W(64) W(65) W(100) W(128) W(130) W(192) W(256)
#endif
typedef unsigned long u64;
enum { WB = 64 };
template<unsigned N> struct Bits {      // the mathematical bit vector
   enum { K = (N + WB - 1) / WB + 1 };
   u64 w[K];
   Bits() { for (int i = 0; i < K; ++i) w[i] = 0; }
   bool get(unsigned i) const { return (w[i / WB] >> (i % WB)) & 1; }
   void put(unsigned i, bool v) { w[i / WB] = (w[i / WB] & ~(1ul << (i % WB))) | ((u64)v << (i % WB)); }
   static u64 mask(int k) { unsigned lo = k * WB; return lo >= N ? 0 : N - lo >= WB ? ~0ul : (1ul << (N - lo)) - 1; }
   void trim() { for (int i = 0; i < K; ++i) w[i] &= mask(i); }
   unsigned count() const { unsigned c = 0; for (unsigned i = 0; i < N; ++i) c += get(i); return c; }
   bool any() const { u64 r = 0; for (int i = 0; i < K; ++i) r |= w[i]; return r != 0; }
   bool all() const { bool r = true; for (int i = 0; i < K; ++i) r = r & (w[i] == mask(i)); return r; }
   bool eq(const Bits &o) const { bool r = true; for (int i = 0; i < K; ++i) r = r & (w[i] == o.w[i]); return r; }
   void word(int k, u64 v) { w[k] = v & mask(k); }
};
template<unsigned N> static void same(const ttl::bitset<N> &b, const Bits<N> &m, const char *msg)
{
   u64 d = 0; for (unsigned i = 0; i < N; ++i) d |= (u64)(b.test(i) ^ m.get(i)) | (u64)(b[i] ^ m.get(i));
   A_(d == 0, msg); vp_observe(N ? b.test(N - 1) : 0);
}
// arbitrary contents; optionally the storage outside the width is set, as flip() and ~ leave it
template<unsigned N> static void fill(ttl::bitset<N> &b, Bits<N> &m, bool dirty)
{
   if (dirty) b.set();
   for (unsigned k = 0; k * WB < N; ++k) m.word(k, vp_u64("word"));
   for (unsigned i = 0; i < N; ++i) b[i] = m.get(i);
}
static const unsigned widths[] = {
#define W(n) n,
WIDTHS
#undef W
};
enum { NW = sizeof(widths) / sizeof(*widths) };
// a position: everywhere around the word boundaries, and some in between
template<unsigned N> static unsigned pos()
{
   if (N <= 130) return vp_choice("pos", N);
   static const unsigned near[] = { 0, 1, 31, 32, 62, 63, 64, 65, 66, 95, 100, 126, 127, 128, 129, 130, 160, 190, 191, 192, 193, 254, 255, 256, 257 };
   unsigned k = 0; while (k < sizeof(near) / sizeof(*near) && near[k] < N - 1) ++k;
   unsigned c = vp_choice("pos", k + 1); return c < k ? near[c] : N - 1;
}
// a shift amount: every one up to beyond the width; for wide bitsets those around multiples of a half word
template<unsigned N> static u64 amount()
{
   static const u64 huge[] = { 4 * WB + 1, 1ul << 32, (1ul << 32) + 1, ~0ul };
   if (N <= 130) { unsigned s = vp_choice("amount", N + 7); return s >= N + 3 ? huge[s - N - 3] : s; }
   static const int off[] = { -1, 0, 1, 13 };
   unsigned s = vp_choice("half words", N / (WB / 2) + 1) * (WB / 2); int o = off[vp_choice("off", 4)]; return o < 0 && !s ? N - 1 : s + o;
}

template<unsigned N> static void queries(const ttl::bitset<N> &b, const Bits<N> &m)
{
   A_(b.any() == m.any(), "any reports exactly the bits below the width"); A_(b.none() == !m.any(), "none reports exactly the bits below the width");
   A_(b.all() == m.all(), "all reports exactly the bits below the width"); A_(b.size() == N, "size is the width");
}
template<unsigned N> static void step(ttl::bitset<N> &b, Bits<N> &m, unsigned p)
{
   bool v = vp_bool("v");
   switch (vp_choice("op", 13)) {
   case 0: { ttl::bitset<N> &r = b.set(p); A_(&r == &b, "set returns the bitset"); m.put(p, true); break; }
   case 1: b.set(p, v); m.put(p, v); vp_reach("set value"); break;
   case 2: { ttl::bitset<N> &r = b.reset(p); A_(&r == &b, "reset returns the bitset"); m.put(p, false); break; }
   case 3: b.flip(p); m.put(p, !m.get(p)); break;
   case 4: b[p] = v; m.put(p, v); break;
   case 5: b[p].flip(); m.put(p, !m.get(p)); break;
   case 6: { unsigned q = (p * 5 + 3) % N; b[p] = b[q]; m.put(p, m.get(q)); vp_reach("copy a bit"); break; }
   case 7: A_((bool)b[p] == m.get(p), "subscript reads the bit"); A_(~b[p] == !m.get(p), "~ of a reference is the inverse of the bit"); break;
   case 8: b.set(); for (int k = 0; k < Bits<N>::K; ++k) m.w[k] = ~0ul; m.trim(); break;
   case 9: b.reset(); m = Bits<N>(); break;
   case 10: b.flip(); for (int k = 0; k < Bits<N>::K; ++k) m.w[k] = ~m.w[k]; m.trim(); break;
   case 11: { ttl::bitset<N> c; Bits<N> mc; c[N-1] = true; c[p] = b[p]; mc.put(N-1, true); mc.put(p, m.get(p)); same<N>(c, mc, "copying a bit from another bitset writes only that bit"); break; }
   case 12: { ttl::bitset<N> c(b); Bits<N> mc = m; c.flip(p); mc.put(p, !mc.get(p)); same<N>(c, mc, "a copy is independent"); c = b; same<N>(c, m, "assignment copies every bit"); break; }
   }
}
template<unsigned N> static void single()
{
   ttl::bitset<N> b; Bits<N> m; same<N>(b, m, "a new bitset is all zero"); queries<N>(b, m); fill<N>(b, m, vp_choice("dirty", 2)); same<N>(b, m, "writing every bit through subscripts gives exactly those bits");
   step<N>(b, m, pos<N>()); same<N>(b, m, "exactly the addressed bit changes"); queries<N>(b, m);
   A_(!b.test(N) && !b.test(N + 70) && !static_cast<const ttl::bitset<N> &>(b)[N], "a position beyond the width reads as zero");
}
template<unsigned N> static void reading()   // any position at all, inside or not
{
   ttl::bitset<N> b; Bits<N> m; fill<N>(b, m, vp_choice("dirty", 2)); u64 p = vp_u64("position"); const ttl::bitset<N> &cb = b; bool g; u64 w = 0;
   switch (vp_choice("how", 2)) { case 0: g = b.test(p); break; default: g = cb[p]; }
   for (unsigned k = 0; k < Bits<N>::K; ++k) w = p / WB == k ? m.w[k] : w;
   A_(g == (((w >> (p % WB)) & 1) != 0), "reading any position gives its bit, zero beyond the width"); same<N>(b, m, "reading leaves the bits alone");
}
template<unsigned N> static void hist()
{
   ttl::bitset<N> b; Bits<N> m; fill<N>(b, m, vp_choice("dirty", 2)); const unsigned ps[] = { 0, N - 1, N / 2, N > WB ? (unsigned)WB : 0, N > WB ? WB - 1 : N / 3 };
   for (int i = 0; i < NOPS; ++i) { step<N>(b, m, ps[vp_choice("pos", 5)]); same<N>(b, m, "exactly the addressed bits change"); } queries<N>(b, m);
}
template<unsigned N> static void counting()
{
   ttl::bitset<N> b; Bits<N> m; fill<N>(b, m, vp_choice("dirty", 2)); unsigned c = (unsigned)b.count(); A_(c == m.count(), "count is the number of set bits below the width"); queries<N>(b, m);
}
#define PERW(f) switch (widths[vp_choice("width", NW)]) { WIDTHS }
#define ENTRYW(name, f) VP_ENTRY(name) { switch (widths[vp_choice("width", NW)]) { WIDTHS } }
#define W(n) case n: single<n>(); break;
ENTRYW(bits_single, single)
#undef W
#define W(n) case n: hist<n>(); break;
ENTRYW(bits_history, hist)
#undef W
#define W(n) case n: counting<n>(); break;
ENTRYW(bits_count, counting)
#undef W

#define W(n) case n: reading<n>(); break;
ENTRYW(bits_reading, reading)
#undef W
// ------------------------------------------------------------ P20
template<unsigned N> static void logic()
{
   ttl::bitset<N> a, b; Bits<N> ma, mb, r; fill<N>(a, ma, vp_choice("dirty a", 2)); fill<N>(b, mb, vp_choice("dirty b", 2));
   bool al = vp_choice("aliased", 2); ttl::bitset<N> &o = al ? a : b; const Bits<N> &mo = al ? ma : mb;
   const Bits<N> ma0 = ma, mo0 = mo; enum { K = Bits<N>::K };
   switch (vp_choice("op", 9)) {
   case 0: for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] & mo.w[k]; same<N>(a & o, r, "and"); break;
   case 1: for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] | mo.w[k]; same<N>(a | o, r, "or"); break;
   case 2: for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] ^ mo.w[k]; same<N>(a ^ o, r, "exclusive or"); break;
   case 3: { for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] & mo.w[k]; ttl::bitset<N> &x = a &= o; A_(&x == &a, "and-assignment returns the target"); ma = r; break; }
   case 4: { for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] | mo.w[k]; ttl::bitset<N> &x = a |= o; A_(&x == &a, "or-assignment returns the target"); ma = r; break; }
   case 5: { for (int k = 0; k < K; ++k) r.w[k] = ma.w[k] ^ mo.w[k]; ttl::bitset<N> &x = a ^= o; A_(&x == &a, "xor-assignment returns the target"); ma = r; break; }
   case 6: { for (int k = 0; k < K; ++k) r.w[k] = ~ma.w[k]; r.trim(); ttl::bitset<N> c(~a); same<N>(c, r, "complement"); queries<N>(c, r); same<N>(~c, ma, "complement of the complement"); break; }
   case 7: A_((a == o) == ma.eq(mo) && (o == a) == ma.eq(mo), "equal exactly if all bits below the width are equal"); A_((a != o) == !ma.eq(mo), "inequality is the negation"); if (ma.eq(mo)) vp_reach("bits equal"); else vp_reach("bits differ"); break;
   case 8: { ttl::bitset<N> c(a), d; d = a; A_(c == a && d == a && !(c != a), "copies are equal"); unsigned p = pos<N>(); d.flip(p); A_(d != a && !(d == a), "a single differing bit makes them unequal"); break; }
   }
   same<N>(a, ma, "the left operand is exactly the result or unchanged"); if (!al) same<N>(b, mb, "the right operand is unchanged"); queries<N>(a, ma);
}
#define W(n) case n: logic<n>(); break;
ENTRYW(bits_logic, logic)
#undef W
// shifts: every amount; WIN arbitrary bits at any place, the others a fixed pattern
template<unsigned N> static void shift()
{
   ttl::bitset<N> b; Bits<N> m; if (N % WB ? vp_choice("dirty", 2) : 0) b.set();
   unsigned w = N <= FULL ? N : WIN, at = 0, pat = 0;
   if (N > w) {
#ifdef ALLWIN
      at = vp_choice("window", N - w + 1);
#else
      switch (vp_choice("window", 3)) { case 1: at = N - w; break; case 2: at = N > WB ? WB - w / 2 : (N - w) / 2; break; } if (at > N - w) at = N - w;
#endif
      pat = vp_choice("rest", 3);
   }
   u64 s = amount<N>();
   for (unsigned i = 0; i < N; ++i) { bool v = i >= at && i < at + w ? vp_bool("bit") : pat == 2 ? (i % 3 == 0) : pat; b[i] = v; m.put(i, v); }
   Bits<N> l, r; for (unsigned i = 0; i < N; ++i) { if (i >= s) l.put(i, m.get(i - s)); if (s < N && i + s < N) r.put(i, m.get(i + s)); }
   same<N>(b << s, l, "left shift"); same<N>(b >> s, r, "right shift"); same<N>(b, m, "a shift leaves the operand alone");
   ttl::bitset<N> c(b); ttl::bitset<N> &x = c <<= s; A_(&x == &c, "shift-assignment returns the target"); same<N>(c, l, "left shift-assignment"); queries<N>(c, l);
   ttl::bitset<N> &y = b >>= s; A_(&y == &b, "shift-assignment returns the target"); same<N>(b, r, "right shift-assignment"); queries<N>(b, r);
   if (!s) vp_reach("shift by zero"); if (s >= N) vp_reach("shift everything out");
}
#define W(n) case n: shift<n>(); break;
ENTRYW(bits_shift, shift)
#undef W
VP_ENTRY(bits_zero)      // width zero: nothing to read, nothing to write
{
   struct { u64 g0[2]; ttl::bitset<0> b; u64 g1[2]; } g, h; g.g0[0] = g.g0[1] = g.g1[0] = g.g1[1] = 0x5a5a; ttl::bitset<0> &b = g.b; ttl::bitset<0> c;
   switch (vp_choice("op", 12)) {
   case 0: b.set(); break; case 1: b.reset(); break; case 2: b.flip(); break; case 3: b &= c; break; case 4: b |= c; break; case 5: b ^= c; break;
   case 6: b = c; break; case 7: c = ~b; break; case 8: c = b << (vp_choice("s", 3)); break; case 9: c = b >> (vp_choice("s", 3)); break; case 10: c = (b & c) | (b ^ c); break; case 11: { b.set(3); b.reset(4); b.flip(5); b.set(1, true); break; }
   }
   A_(b.none() && !b.any() && b.count() == 0 && b.size() == 0, "an empty bitset has no bits"); A_(!b.test(0) && !static_cast<const ttl::bitset<0> &>(b)[0], "an empty bitset reads as zero"); A_(b == c && !(b != c), "empty bitsets are equal");
   A_(b.to_ulong() == 0 && b.to_ullong() == 0, "an empty bitset is zero");
   ttl::bitset<70> x, z; z = x; x.set(65); A_(!(x == b) && (b != x) && !(b == x) && (x != b), "an empty bitset differs from one with bits set"); A_((z == b) && (b == z) && !(z != b) && !(b != z), "an empty bitset equals one without set bits");
   A_(g.g0[0] == 0x5a5a && g.g0[1] == 0x5a5a && g.g1[0] == 0x5a5a && g.g1[1] == 0x5a5a, "nothing outside the object is written"); (void)h;
}

// ------------------------------------------------------------ P21
template<unsigned N> static void from_int()
{
   u64 v = vp_u64("v"); Bits<N> m; m.word(0, v);
   switch (vp_choice("how", 4)) {
   case 0: { ttl::bitset<N> b(v); same<N>(b, m, "constructed from an integer: the bits that fit"); queries<N>(b, m); A_(b.to_ulong() == m.w[0] && b.to_ullong() == m.w[0], "converts back to the integer"); break; }
   case 1: { ttl::bitset<N> b((unsigned long long)v); same<N>(b, m, "constructed from a long integer: the bits that fit"); A_(b.to_ullong() == m.w[0] && b.to_ulong() == m.w[0], "converts back to the integer"); break; }
   case 2: { ttl::bitset<N> b; b.set(); b = ttl::bitset<N>(v); same<N>(b, m, "assigned from an integer"); break; }
   case 3: { ttl::bitset<N> b; Bits<N> f; fill<N>(b, f, vp_choice("dirty", 2)); A_(b.to_ulong() == f.w[0], "to_ulong gives the low bits below the width"); A_(b.to_ullong() == f.w[0], "to_ullong gives the low bits below the width"); ttl::bitset<N> c(b.to_ulong()); f.w[1 % Bits<N>::K] = Bits<N>::K > 1 && N > WB ? 0 : f.w[1 % Bits<N>::K]; for (int k = 1; k < Bits<N>::K; ++k) f.w[k] = 0; same<N>(c, f, "the low bits survive the round trip"); break; }
   }
}
#define W(n) case n: from_int<n>(); break;
ENTRYW(bits_from_int, from_int)
#undef W
VP_ENTRY(bits0_from_int)
{
   struct { u64 g0; ttl::bitset<0> b; u64 g1; } *g; (void)g; u64 v = vp_u64("v");
   ttl::bitset<0> *b = static_cast<ttl::bitset<0> *>(::operator new(sizeof(ttl::bitset<0>) + 8)); u64 *after = reinterpret_cast<u64 *>(b); *after = 0x77;
   switch (vp_choice("how", 4)) { case 0: new (b) ttl::bitset<0>(v); break; case 1: new (b) ttl::bitset<0>((unsigned long long)v); break; case 2: new (b) ttl::bitset<0>("0101"); break; case 3: { ttl::bitset<70> o(v); new (b) ttl::bitset<0>(o); break; } }
   A_(*after == 0x77, "an empty bitset is constructed without writing behind it"); A_(b->none() && b->to_ulong() == 0, "it has no bits"); ::operator delete(b);
}
// strings: the first N characters, most significant first, up to the first other character
template<unsigned N> static void from_string()
{
   unsigned len = N <= FULL ? vp_choice("len", N + SLEN + 1) : (N > SLEN ? N - SLEN : 0) + vp_choice("len", 2 * SLEN + 1); bool lim = vp_choice("limit", 2), custom = vp_choice("custom", 2);
   char zero = custom ? 'a' : '0', one = custom ? 'B' : '1';
   char *s = new char[len + !lim]; if (!lim) s[len] = 0;
   unsigned arb = N <= FULL ? len : SLEN, at = len <= arb ? 0 : vp_choice("window", 3) == 0 ? 0 : vp_choice("end", 2) ? len - arb : (len - arb) / 2;
   for (unsigned i = 0; i < len; ++i) { if (i >= at && i < at + arb) s[i] = (char)vp_u8("chr"); else s[i] = i % 3 ? one : zero; }
   unsigned n = 0; while (n < len && n < N && vp_concretize((s[n] == zero) | (s[n] == one))) ++n;
   Bits<N> m; for (unsigned i = 0; i < n; ++i) m.put(n - 1 - i, s[i] == one);
   struct Box { u64 g0; ttl::bitset<N> b; u64 g1; };
   if (!custom && !lim) { ttl::bitset<N> b(s); same<N>(b, m, "constructed from a string"); A_(b.count() == m.count(), "count of the bits of the string"); }
   else { ttl::bitset<N> b(s, lim ? len : (ttl::size_t)-1, zero, one); same<N>(b, m, "constructed from a string with a length and custom characters"); }
   if (len > N) vp_reach("string longer than the width"); if (n < len && n < N) vp_reach("other character"); if (!len) vp_reach("empty string");
   delete [] s;
}
#ifndef STRW
#define STRW W(1) W(3) W(64) W(66)
#endif
VP_ENTRY(bits_from_string) {
   static const unsigned sw[] = {
#define W(n) n,
   STRW
#undef W
   };
   switch (sw[vp_choice("width", sizeof(sw) / sizeof(*sw))]) {
#define W(n) case n: from_string<n>(); break;
   STRW
#undef W
   } }
template<unsigned N, unsigned M> static void convert()      // from N to M
{
   ttl::bitset<N> a; Bits<N> ma; fill<N>(a, ma, vp_choice("dirty", 2)); Bits<M> m; for (unsigned i = 0; i < N && i < M; ++i) m.put(i, ma.get(i));
   switch (vp_choice("how", 4)) {
   case 0: { ttl::bitset<M> b(a); same<M>(b, m, "constructed from another width: the bits that fit, zero above"); queries<M>(b, m); A_(b.to_ulong() == m.w[0], "value of the converted bits"); break; }
   case 1: { ttl::bitset<M> b; b.set(); ttl::bitset<M> &r = (b = a); A_(&r == &b, "assignment returns the target"); same<M>(b, m, "assigned from another width: the bits that fit, zero above"); break; }
   case 2: { ttl::bitset<M> b = (ttl::bitset<M>)a; b = b | b; same<M>(b, m, "converted to another width"); break; }
   case 3: { ttl::bitset<M> b; b = ~a; Bits<M> inv; for (unsigned i = 0; i < N && i < M; ++i) inv.put(i, !ma.get(i)); same<M>(b, inv, "a complement is converted bit by bit"); break; }
   }
   same<N>(a, ma, "the source is unchanged"); vp_reach("converted");
}
VP_ENTRY(bits_convert)
{
   switch (vp_choice("pair", 16)) {
   case 0: convert<16, 128>(); break; case 1: convert<128, 16>(); break; case 2: convert<64, 65>(); break; case 3: convert<65, 64>(); break;
   case 4: convert<65, 70>(); break; case 5: convert<70, 65>(); break; case 6: convert<1, 64>(); break; case 7: convert<33, 31>(); break;
   case 8: convert<63, 64>(); break; case 9: convert<64, 63>(); break; case 10: convert<10, 20>(); break; case 11: convert<20, 10>(); break;
   case 12: convert<130, 64>(); break; case 13: convert<64, 130>(); break; case 14: convert<100, 130>(); break; case 15: convert<130, 100>(); break;
   }
}
VP_ENTRY(bits_convert0) { ttl::bitset<0> z; ttl::bitset<70> b(z), c; c.set(); c = z; Bits<70> m; same<70>(b, m, "constructed from an empty bitset"); same<70>(c, m, "assigned from an empty bitset"); ttl::bitset<0> y(c); y = c; A_(y.none(), "an empty bitset has no bits"); }
