#include "bind.h"
#include <cstring>
extern "C" {
#include <kripto/block/3way.h>
#include <kripto/block/aes.h>
#include <kripto/block/anubis.h>
#include <kripto/block/aria.h>
#include <kripto/block/blowfish.h>
#include <kripto/block/camellia.h>
#include <kripto/block/cast5.h>
#include <kripto/block/crax_s.h>
#include <kripto/block/des.h>
#include <kripto/block/gost.h>
#include <kripto/block/idea.h>
#include <kripto/block/khazad.h>
#include <kripto/block/lea.h>
#include <kripto/block/noekeon.h>
#include <kripto/block/rc2.h>
#include <kripto/block/rc5.h>
#include <kripto/block/rc6.h>
#include <kripto/block/rectangle.h>
#include <kripto/block/rijndael128.h>
#include <kripto/block/rijndael256.h>
#include <kripto/block/safer.h>
#include <kripto/block/safer_sk.h>
#include <kripto/block/saferpp.h>
#include <kripto/block/seed.h>
#include <kripto/block/serpent.h>
#include <kripto/block/shacal2.h>
#include <kripto/block/simon128.h>
#include <kripto/block/simon32.h>
#include <kripto/block/simon64.h>
#include <kripto/block/skipjack.h>
#include <kripto/block/sm4.h>
#include <kripto/block/speck128.h>
#include <kripto/block/speck32.h>
#include <kripto/block/speck64.h>
#include <kripto/block/tea.h>
#include <kripto/block/threefish1024.h>
#include <kripto/block/threefish256.h>
#include <kripto/block/threefish512.h>
#include <kripto/block/trax_l.h>
#include <kripto/block/trax_m.h>
#include <kripto/block/twofish.h>
#include <kripto/block/xtea.h>
#include <kripto/hash/blake256.h>
#include <kripto/hash/blake2b.h>
#include <kripto/hash/blake2s.h>
#include <kripto/hash/blake512.h>
#include <kripto/hash/keccak1600.h>
#include <kripto/hash/keccak800.h>
#include <kripto/hash/md5.h>
#include <kripto/hash/sha1.h>
#include <kripto/hash/sha2_256.h>
#include <kripto/hash/sha2_512.h>
#include <kripto/hash/sha3.h>
#include <kripto/hash/skein1024.h>
#include <kripto/hash/skein256.h>
#include <kripto/hash/skein512.h>
#include <kripto/hash/tiger.h>
#include <kripto/hash/whirlpool.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/skein1024.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/xcbc.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/chacha.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/skein1024.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
}
LBlock g_blocks[]={{"3way",0},{"aes",0},{"anubis",0},{"aria",0},{"blowfish",0},{"camellia",0},{"cast5",0},{"crax_s",0},{"des",0},{"idea",0},{"khazad",0},{"lea",0},{"noekeon",0},{"rc2",0},{"rc5",0},{"rc6",0},{"rectangle",0},{"rijndael128",0},{"rijndael256",0},{"safer",0},{"safer_sk",0},{"saferpp",0},{"seed",0},{"serpent",0},{"shacal2",0},{"simon32",0},{"simon64",0},{"simon128",0},{"skipjack",0},{"sm4",0},{"speck32",0},{"speck64",0},{"speck128",0},{"tea",0},{"threefish256",0},{"threefish512",0},{"threefish1024",0},{"trax_l",0},{"trax_m",0},{"twofish",0},{"xtea",0},{"gost_cbr",0},{"gost_r34_12_2015",0}}; const unsigned n_blocks=43;
LHash g_hashes[]={{"md5",0},{"sha1",0},{"sha2_256",0},{"sha2_512",0},{"tiger",0},{"whirlpool",0},{"blake256",0},{"blake512",0},{"blake2s",0},{"blake2b",0},{"keccak1600",0},{"keccak800",0},{"sha3",0},{"skein256",0},{"skein512",0},{"skein1024",0}}; const unsigned n_hashes=16;
LStream g_streams[]={{"chacha",0},{"salsa20",0},{"rc4",0},{"keccak1600",0},{"keccak800",0},{"skein256",0},{"skein512",0},{"skein1024",0}}; const unsigned n_streams=8;
LMac g_macs[]={{"keccak1600",0},{"keccak800",0},{"skein256",0},{"skein512",0},{"skein1024",0}}; const unsigned n_macs=5;
const char*const g_modes[5]={"ecb","cbc","cfb","ofb","ctr"};
void bind_init(){ if(g_blocks[0].d) return; unsigned i=0;
  g_blocks[i++].d=kripto_block_3way;
  g_blocks[i++].d=kripto_block_aes;
  g_blocks[i++].d=kripto_block_anubis;
  g_blocks[i++].d=kripto_block_aria;
  g_blocks[i++].d=kripto_block_blowfish;
  g_blocks[i++].d=kripto_block_camellia;
  g_blocks[i++].d=kripto_block_cast5;
  g_blocks[i++].d=kripto_block_crax_s;
  g_blocks[i++].d=kripto_block_des;
  g_blocks[i++].d=kripto_block_idea;
  g_blocks[i++].d=kripto_block_khazad;
  g_blocks[i++].d=kripto_block_lea;
  g_blocks[i++].d=kripto_block_noekeon;
  g_blocks[i++].d=kripto_block_rc2;
  g_blocks[i++].d=kripto_block_rc5;
  g_blocks[i++].d=kripto_block_rc6;
  g_blocks[i++].d=kripto_block_rectangle;
  g_blocks[i++].d=kripto_block_rijndael128;
  g_blocks[i++].d=kripto_block_rijndael256;
  g_blocks[i++].d=kripto_block_safer;
  g_blocks[i++].d=kripto_block_safer_sk;
  g_blocks[i++].d=kripto_block_saferpp;
  g_blocks[i++].d=kripto_block_seed;
  g_blocks[i++].d=kripto_block_serpent;
  g_blocks[i++].d=kripto_block_shacal2;
  g_blocks[i++].d=kripto_block_simon32;
  g_blocks[i++].d=kripto_block_simon64;
  g_blocks[i++].d=kripto_block_simon128;
  g_blocks[i++].d=kripto_block_skipjack;
  g_blocks[i++].d=kripto_block_sm4;
  g_blocks[i++].d=kripto_block_speck32;
  g_blocks[i++].d=kripto_block_speck64;
  g_blocks[i++].d=kripto_block_speck128;
  g_blocks[i++].d=kripto_block_tea;
  g_blocks[i++].d=kripto_block_threefish256;
  g_blocks[i++].d=kripto_block_threefish512;
  g_blocks[i++].d=kripto_block_threefish1024;
  g_blocks[i++].d=kripto_block_trax_l;
  g_blocks[i++].d=kripto_block_trax_m;
  g_blocks[i++].d=kripto_block_twofish;
  g_blocks[i++].d=kripto_block_xtea;
  g_blocks[i++].d=kripto_block_gost_cbr(); g_blocks[i++].d=kripto_block_gost_r34_12_2015(); i=0;
  g_hashes[i++].d=kripto_hash_md5;
  g_hashes[i++].d=kripto_hash_sha1;
  g_hashes[i++].d=kripto_hash_sha2_256;
  g_hashes[i++].d=kripto_hash_sha2_512;
  g_hashes[i++].d=kripto_hash_tiger;
  g_hashes[i++].d=kripto_hash_whirlpool;
  g_hashes[i++].d=kripto_hash_blake256;
  g_hashes[i++].d=kripto_hash_blake512;
  g_hashes[i++].d=kripto_hash_blake2s;
  g_hashes[i++].d=kripto_hash_blake2b;
  g_hashes[i++].d=kripto_hash_keccak1600;
  g_hashes[i++].d=kripto_hash_keccak800;
  g_hashes[i++].d=kripto_hash_sha3;
  g_hashes[i++].d=kripto_hash_skein256;
  g_hashes[i++].d=kripto_hash_skein512;
  g_hashes[i++].d=kripto_hash_skein1024;
  i=0;
  g_streams[i++].d=kripto_stream_chacha;
  g_streams[i++].d=kripto_stream_salsa20;
  g_streams[i++].d=kripto_stream_rc4;
  g_streams[i++].d=kripto_stream_keccak1600;
  g_streams[i++].d=kripto_stream_keccak800;
  g_streams[i++].d=kripto_stream_skein256;
  g_streams[i++].d=kripto_stream_skein512;
  g_streams[i++].d=kripto_stream_skein1024;
  i=0;
  g_macs[i++].d=kripto_mac_keccak1600;
  g_macs[i++].d=kripto_mac_keccak800;
  g_macs[i++].d=kripto_mac_skein256;
  g_macs[i++].d=kripto_mac_skein512;
  g_macs[i++].d=kripto_mac_skein1024;
}
const kripto_desc_block* lblock(const char*n){ for(unsigned i=0;i<n_blocks;i++) if(!strcmp(g_blocks[i].name,n)) return g_blocks[i].d; return 0; }
const kripto_desc_hash* lhash(const char*n){ for(unsigned i=0;i<n_hashes;i++) if(!strcmp(g_hashes[i].name,n)) return g_hashes[i].d; return 0; }
kripto_desc_stream* lmode(unsigned m,const kripto_desc_block*b){ switch(m){ case 0: return kripto_stream_ecb(b); case 1: return kripto_stream_cbc(b); case 2: return kripto_stream_cfb(b); case 3: return kripto_stream_ofb(b); default: return kripto_stream_ctr(b); } }
kripto_desc_mac* lhmac(const kripto_desc_hash*h){ return kripto_mac_hmac(h); } kripto_desc_mac* lomac(const kripto_desc_block*b){ return kripto_mac_omac(b); } kripto_desc_mac* lxcbc(const kripto_desc_block*b){ return kripto_mac_xcbc(b); }
kripto_desc_ae* leax(const kripto_desc_block*b){ return kripto_ae_eax(b); } kripto_desc_ae* leax2(const kripto_desc_stream*s,const kripto_desc_mac*m){ return kripto_ae_eax2(s,m); }
kripto_desc_block* lgost(const unsigned char (*s)[16]){ return kripto_block_gost(s); }
kripto_desc_block* lgost_cbr(){ return kripto_block_gost_cbr(); } kripto_desc_block* lgost_r34(){ return kripto_block_gost_r34_12_2015(); }
