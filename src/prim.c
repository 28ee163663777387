/* Compiled once per configuration: PRIM_NAME, optionally PRIM_PORTABLE, KRIPTO_LITTLE_ENDIAN, KRIPTO_BIG_ENDIAN. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "prim.h"
#ifdef PRIM_PORTABLE
#undef __x86_64__
#undef __i386__
#endif
#include <kripto/loadstore.h>
#include <kripto/rotate.h>
#define LS(W,T,E) static T l##W##E(const void*p){ return LOAD##W##E(p); } static void s##W##E(T v,void*p){ STORE##W##E(v,p); } \
 static void la##W##E(const void*s,T*d,unsigned n){ LOAD##W##E##_ARRAY(s,d,n); } static void sa##W##E(const T*s,unsigned o,void*d,unsigned n){ STORE##W##E##_ARRAY(s,o,d,n); }
LS(16,uint16_t,L) LS(16,uint16_t,B) LS(32,uint32_t,L) LS(32,uint32_t,B) LS(64,uint64_t,L) LS(64,uint64_t,B)
#define RV(W,T) static T rl##W(T x,unsigned r){ return ROL##W(x,r); } static T rr##W(T x,unsigned r){ return ROR##W(x,r); }
RV(8,uint8_t) RV(16,uint16_t) RV(32,uint32_t) RV(64,uint64_t)
#define R8(S,N) static uint8_t fl8_##S(uint8_t x){ return ROL8_##S(x); } static uint8_t fr8_##S(uint8_t x){ return ROR8_##S(x); }
#define R16(S,N) static uint16_t fl16_##S(uint16_t x){ return ROL16_##S(x); } static uint16_t fr16_##S(uint16_t x){ return ROR16_##S(x); }
#define R32(S,N) static uint32_t fl32_##S(uint32_t x){ return ROL32_##S(x); } static uint32_t fr32_##S(uint32_t x){ return ROR32_##S(x); }
#define R64(S,N) static uint64_t fl64_##S(uint64_t x){ return ROL64_##S(x); } static uint64_t fr64_##S(uint64_t x){ return ROR64_##S(x); }
#include "prim_list.inc"
#undef R8
#undef R16
#undef R32
#undef R64
#define STR_(x) #x
#define STR(x) STR_(x)
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
const struct prim CAT(prim_,PRIM_NAME)={ STR(PRIM_NAME),
#ifdef KRIPTO_BIG_ENDIAN
 1,
#else
 0,
#endif
 {l16L,l16B},{l32L,l32B},{l64L,l64B},{s16L,s16B},{s32L,s32B},{s64L,s64B},{la16L,la16B},{la32L,la32B},{la64L,la64B},{sa16L,sa16B},{sa32L,sa32B},{sa64L,sa64B},{rl8,rr8},{rl16,rr16},{rl32,rr32},{rl64,rr64},
#define R8(S,N) [0][N]=fl8_##S,[1][N]=fr8_##S,
#define R16(S,N)
#define R32(S,N)
#define R64(S,N)
 {
#include "prim_list.inc"
 },
#undef R8
#undef R16
#define R8(S,N)
#define R16(S,N) [0][N]=fl16_##S,[1][N]=fr16_##S,
 {
#include "prim_list.inc"
 },
#undef R16
#undef R32
#define R16(S,N)
#define R32(S,N) [0][N]=fl32_##S,[1][N]=fr32_##S,
 {
#include "prim_list.inc"
 },
#undef R32
#undef R64
#define R32(S,N)
#define R64(S,N) [0][N]=fl64_##S,[1][N]=fr64_##S,
 {
#include "prim_list.inc"
 } };
