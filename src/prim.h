// The load/store and rotate primitives of one build configuration.
#pragma once
#include <stdint.h>
#include <stddef.h>
struct prim { const char*name; int big;
  uint16_t(*l16[2])(const void*); uint32_t(*l32[2])(const void*); uint64_t(*l64[2])(const void*); // [0] little [1] big
  void(*s16[2])(uint16_t,void*); void(*s32[2])(uint32_t,void*); void(*s64[2])(uint64_t,void*);
  void(*la16[2])(const void*,uint16_t*,unsigned); void(*la32[2])(const void*,uint32_t*,unsigned); void(*la64[2])(const void*,uint64_t*,unsigned);
  void(*sa16[2])(const uint16_t*,unsigned,void*,unsigned); void(*sa32[2])(const uint32_t*,unsigned,void*,unsigned); void(*sa64[2])(const uint64_t*,unsigned,void*,unsigned);
  uint8_t(*r8[2])(uint8_t,unsigned); uint16_t(*r16[2])(uint16_t,unsigned); uint32_t(*r32[2])(uint32_t,unsigned); uint64_t(*r64[2])(uint64_t,unsigned); // [0] left [1] right
  uint8_t(*f8[2][8])(uint8_t); uint16_t(*f16[2][16])(uint16_t); uint32_t(*f32[2][32])(uint32_t); uint64_t(*f64[2][64])(uint64_t); };
