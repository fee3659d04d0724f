// Programs with and without a defect: the engine must find every bad_ one and pass every good_ one.
#include "common.h"
struct Box { int a[4]; int z; };
VP_ENTRY(bad_heap_over) { int *p = new int[3]; int i = vp_int("i"); vp_assume(i >= 0 && i < 4); p[i] = 1; delete[] p; }
VP_ENTRY(bad_member_over) { struct { int g; int a[4]; } b; b.g = 0; volatile int s[4]; int i = vp_int("i"); vp_assume(i >= 0 && i <= 4); s[i] = 0; (void)b; }
VP_ENTRY(bad_uaf) { int *p = new int(1); delete p; vp_observe(*p); }
VP_ENTRY(bad_double_free) { int *p = new int(1); delete p; delete p; }
VP_ENTRY(bad_mismatch) { int *p = new int[2]; delete p; }
VP_ENTRY(bad_null) { int *p = vp_bool("b") ? 0 : new int(3); *p = 4; delete p; }
VP_ENTRY(bad_uninit) { int *p = new int; A_(*p == 0, "zero"); delete p; }
VP_ENTRY(bad_assert) { int x = vp_int("x"), y = vp_int("y"); A_(x * 3 - y != 12345 || y < 1000000, "rare"); }
VP_ENTRY(bad_shift) { unsigned s = vp_u32("s"); vp_assume(s <= 32); vp_observe(1u << s); }
VP_ENTRY(bad_div) { int d = vp_int("d"); vp_observe(100 / d); }
VP_ENTRY(bad_loop) { unsigned n = vp_choice("n", 3); for (unsigned i = 0; i != 2; i += n) ; }
VP_ENTRY(bad_leak) { if (vp_bool("b")) new int(1); A_(vp_heap_live() == 0, "released"); }
VP_ENTRY(bad_life_use) { Trk t(1); t.~Trk(); A_(t.get() == 1, "x"); new (&t) Trk(2); }
VP_ENTRY(bad_life_twice) { { Trk t(1); t.~Trk(); } }
VP_ENTRY(bad_order) { int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"); if (a < b && b < c) A_(c < a, "order"); }
VP_ENTRY(good_order) { int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"); if (a < b && b < c) A_(a < c, "order"); if (a <= b && b <= a) A_(a == b, "antisymmetry"); if (!(a < b) && !(b < a)) A_(a == b, "trichotomy"); }
VP_ENTRY(good_bits) { uint64_t x = vp_u64("x"); unsigned s = vp_u32("s"); vp_assume(s < 64); A_(((x >> s) << s) + (x & (((uint64_t)1 << s) - 1)) == x, "split and join"); A_(((x | (x - 1)) >= x) , "or"); }
VP_ENTRY(good_mem) { int n = vp_choice("n", 5); int *p = new int[n + 1]; for (int i = 0; i <= n; ++i) p[i] = vp_int("v"); int s = p[0]; for (int i = n; i >= 0; --i) if (p[i] < s) s = p[i]; bool m = false; for (int i = 0; i <= n; ++i) { A_(s <= p[i], "minimum"); m = m | (s == p[i]); } A_(m, "attained"); delete[] p; A_(vp_heap_live() == 0, "released"); }
VP_ENTRY(good_sym_index) { int t[4] = { 5, 6, 7, 8 }; int i = vp_int("i"); vp_assume(i >= 0 && i < 4); A_(t[i] == 5 + i, "table"); }
VP_ENTRY(good_count) { int a[3]; int c = 0; for (int i = 0; i < 3; ++i) { a[i] = vp_int("a"); if (a[i] < 0) ++c; } A_(c >= 0 && c <= 3, "count"); }
VP_ENTRY(good_wrap) { unsigned a = vp_u32("a"), b = vp_u32("b"); A_(a - b + b == a, "modular"); A_((a ^ b ^ b) == a, "xor"); }
