// Interface between a most-general client ("scenario") and the abstract interpreter.
// Scenario functions are never executed: they are compiled to LLVM IR and interpreted abstractly.
#pragma once
extern "C" {
bool vp_any_bool();
int vp_any_int(int lo,int hi);                 // every int in [lo,hi]
unsigned vp_any_uint(unsigned lo,unsigned hi);
double vp_any_double(double lo,double hi);     // every double in [lo,hi], no NaN
double vp_any_fp();                            // every double, NaN and infinities included
unsigned vp_pure_int(unsigned fid,unsigned lo,unsigned hi,int key); // unknown pure function of key
int vp_split(int);                             // same value, analysed one value at a time
void vp_assume(bool);
void vp_assert(bool,const char*);
bool vp_same(double,double);                   // provably the same value
bool vp_same_mem(const void*,const void*,unsigned long); // provably the same bytes
bool vp_is_init(const void*,unsigned long);
bool vp_is_valid(const void*);
unsigned vp_live_heap();
void vp_havoc(void*,unsigned long);
void vp_uninit(void*,unsigned long);
void vp_track(const void*,unsigned long);      // keep states apart by the exact value stored here
void vp_untrack(const void*,unsigned long);
void vp_track_range(const void*,unsigned long);
void vp_track_max(int);
void vp_track_all(bool);                       // keep states apart by every integer in memory
void vp_merge_signs();                         // as vp_merge, but keeps states apart by the signs of the floating-point locals of the code under analysis
void vp_merge();                               // join all states that reach this point
void vp_unroll(int);
void vp_splitmax(int);
void vp_noheap(bool);
void vp_reach(const char*);
void vp_dump(double);
void vp_fill_raw(void*); bool vp_same_raw(const void*,const void*);
}
template<class T> void vp_fill(T* p){ vp_fill_raw(p); }               // every member takes an arbitrary value (members from the debug information)
template<class T> bool vp_same_object(T const* a,T const* b){ return vp_same_raw(a,b); } // provably the same value in every member
#include <cmath>
#include <climits>
#include <cfloat>
#include <cassert>
#include <cstddef>
#include <limits>
#include <type_traits>
#define SCN extern "C" void
