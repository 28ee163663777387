// Names -> library descriptors. The same names are used by the reference model.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/ae.h>
#include <kripto/memory.h>
#include <kripto/pkcs7.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/random.h>
}
struct LBlock { const char*name; const kripto_desc_block*d; };
struct LHash { const char*name; const kripto_desc_hash*d; };
struct LStream { const char*name; const kripto_desc_stream*d; };
struct LMac { const char*name; const kripto_desc_mac*d; };
extern LBlock g_blocks[]; extern const unsigned n_blocks;
extern LHash g_hashes[]; extern const unsigned n_hashes;
extern LStream g_streams[]; extern const unsigned n_streams; // without block modes
extern LMac g_macs[]; extern const unsigned n_macs; // without constructions
extern const char*const g_modes[5]; // ecb cbc cfb ofb ctr
void bind_init(); // must be called once (allocates the GOST descriptors)
const kripto_desc_block* lblock(const char*name);
const kripto_desc_hash* lhash(const char*name);
kripto_desc_stream* lmode(unsigned m,const kripto_desc_block*b); // factory, caller frees
kripto_desc_mac* lhmac(const kripto_desc_hash*h); kripto_desc_mac* lomac(const kripto_desc_block*b); kripto_desc_mac* lxcbc(const kripto_desc_block*b);
kripto_desc_ae* leax(const kripto_desc_block*b); kripto_desc_ae* leax2(const kripto_desc_stream*s,const kripto_desc_mac*m);
kripto_desc_block* lgost(const unsigned char (*sboxes)[16]);
kripto_desc_block* lgost_cbr(); kripto_desc_block* lgost_r34();
