#pragma once
#include <stdint.h>
extern "C" {
#include <kripto/block.h>
}
void toy_enc(const uint8_t*k,unsigned kl,unsigned r,unsigned n,const uint8_t*in,uint8_t*out);
void toy_dec(const uint8_t*k,unsigned kl,unsigned r,unsigned n,const uint8_t*in,uint8_t*out);
kripto_desc_block* toy_desc(unsigned bs); // cached, bs 1..255
