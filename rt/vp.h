// Harness interface.  The same harness is (a) executed symbolically by the engine
// and (b) compiled natively and replayed on concrete values.
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
int      vp_int(const char *name);            // any 32-bit value
uint8_t  vp_u8(const char *name);
uint16_t vp_u16(const char *name);
uint32_t vp_u32(const char *name);
uint64_t vp_u64(const char *name);
bool     vp_bool(const char *name);
int      vp_range(const char *name, int lo, int hi);  // symbolic, lo <= v <= hi
int      vp_choice(const char *name, int n);          // 0..n-1, explored case by case
void     vp_assume(bool c);
void     vp_assert(bool c, const char *msg);
void     vp_fail(const char *msg);
void     vp_reach(const char *label);         // vacuity witness
void     vp_observe(long v);                  // compared between engine and native run
long     vp_concretize(long v);
int      vp_heap_live();                      // live heap blocks
int      vp_heap_allocs();                    // allocations so far
int      vp_heap_frees();
void     vp_ctor(const void *p);              // object lifetime registry
void     vp_dtor(const void *p);
void     vp_use(const void *p);
int      vp_live_objs();
}
#define VP_ENTRY(name) extern "C" void name()
#endif
