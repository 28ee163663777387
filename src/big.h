// A read-only region of many GiB backed by one 64 MiB pseudo-random block mapped repeatedly.
#pragma once
#include <cstdint>
#include <cstddef>
const size_t BIG_UNIT=64u<<20; const size_t BIG_SIZE=(4ull<<30)+BIG_UNIT;
const uint8_t* big_region(); // maps BIG_SIZE bytes; null when impossible
uint8_t* big_scratch(); // writable: BIG_SIZE bytes over one private 64 MiB block

// a trivial custom block cipher, for calls of more than 2^32 bytes through the modes and authenticated modes
extern "C" {
#include <kripto/block.h>
}
const kripto_desc_block* fast_cipher(); // block of 240 bytes
// a trivial custom MAC with tags of 64 KiB, for derived keys of more than 2^32 bytes; fast_tag is its specification
extern "C" {
#include <kripto/mac.h>
}
const unsigned FAST_TAG=65536; const kripto_desc_mac* fast_mac();
void fast_tag(const uint8_t*key,size_t kn,const uint8_t*msg,size_t mn,uint8_t*out);
// the same with tags of 16 bytes and keys of any length
const unsigned QUICK_TAG=16; const kripto_desc_mac* quick_mac();
void quick_tag(const uint8_t*key,size_t kn,const uint8_t*msg,size_t mn,uint8_t*out);
