/* The pointers to descriptors which the headers declare, filled from the image of the emulated machine. */
#define ALL \
 X(kripto_block_3way) \
 X(kripto_block_aes) \
 X(kripto_block_anubis) \
 X(kripto_block_aria) \
 X(kripto_block_blowfish) \
 X(kripto_block_camellia) \
 X(kripto_block_cast5) \
 X(kripto_block_crax_s) \
 X(kripto_block_des) \
 X(kripto_block_idea) \
 X(kripto_block_khazad) \
 X(kripto_block_lea) \
 X(kripto_block_noekeon) \
 X(kripto_block_rc2) \
 X(kripto_block_rc5) \
 X(kripto_block_rc6) \
 X(kripto_block_rectangle) \
 X(kripto_block_rijndael128) \
 X(kripto_block_rijndael256) \
 X(kripto_block_safer) \
 X(kripto_block_safer_sk) \
 X(kripto_block_saferpp) \
 X(kripto_block_seed) \
 X(kripto_block_serpent) \
 X(kripto_block_shacal2) \
 X(kripto_block_simon128) \
 X(kripto_block_simon32) \
 X(kripto_block_simon64) \
 X(kripto_block_skipjack) \
 X(kripto_block_sm4) \
 X(kripto_block_speck128) \
 X(kripto_block_speck32) \
 X(kripto_block_speck64) \
 X(kripto_block_tea) \
 X(kripto_block_threefish1024) \
 X(kripto_block_threefish256) \
 X(kripto_block_threefish512) \
 X(kripto_block_trax_l) \
 X(kripto_block_trax_m) \
 X(kripto_block_twofish) \
 X(kripto_block_xtea) \
 X(kripto_hash_blake256) \
 X(kripto_hash_blake2b) \
 X(kripto_hash_blake2s) \
 X(kripto_hash_blake512) \
 X(kripto_hash_keccak1600) \
 X(kripto_hash_keccak800) \
 X(kripto_hash_md5) \
 X(kripto_hash_sha1) \
 X(kripto_hash_sha2_256) \
 X(kripto_hash_sha2_512) \
 X(kripto_hash_sha3) \
 X(kripto_hash_skein1024) \
 X(kripto_hash_skein256) \
 X(kripto_hash_skein512) \
 X(kripto_hash_tiger) \
 X(kripto_hash_whirlpool) \
 X(kripto_mac_keccak1600) \
 X(kripto_mac_keccak800) \
 X(kripto_mac_skein1024) \
 X(kripto_mac_skein256) \
 X(kripto_mac_skein512) \
 X(kripto_stream_chacha) \
 X(kripto_stream_keccak1600) \
 X(kripto_stream_keccak800) \
 X(kripto_stream_rc4) \
 X(kripto_stream_salsa20) \
 X(kripto_stream_skein1024) \
 X(kripto_stream_skein256) \
 X(kripto_stream_skein512) \

#define X(n) const void*n;
ALL
#undef X
#define X(n) {#n,&n},
const struct { const char*name; const void**p; } emu_syms[]={ ALL {0,0} };
