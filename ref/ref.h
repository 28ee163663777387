// Independent reference model of the algorithms in libkripto, written from the
// published specifications. Never includes or reads anything from /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <functional>
namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
inline u32 rl32(u32 x, unsigned n){ n&=31; return n? (x<<n)|(x>>(32-n)):x; }
inline u32 rr32(u32 x, unsigned n){ return rl32(x,(32-(n&31))&31); }
inline u64 rl64(u64 x, unsigned n){ n&=63; return n? (x<<n)|(x>>(64-n)):x; }
inline u64 rr64(u64 x, unsigned n){ return rl64(x,(64-(n&63))&63); }
inline u16 rl16(u16 x, unsigned n){ n&=15; return n? (u16)((x<<n)|(x>>(16-n))):x; }
inline u16 rr16(u16 x, unsigned n){ return rl16(x,(16-(n&15))&15); }
inline u8 rl8(u8 x, unsigned n){ n&=7; return n? (u8)((x<<n)|(x>>(8-n))):x; }
template<class T> T ldb(const u8*p){ T r=0; for(size_t i=0;i<sizeof(T);i++) r=(T)((r<<8)|p[i]); return r; }
template<> inline u8 ldb<u8>(const u8*p){ return *p; }
template<class T> T ldl(const u8*p){ T r=0; for(size_t i=0;i<sizeof(T);i++) r|=(T)((T)p[i]<<(8*i)); return r; }
template<class T> void stb(T x,u8*p){ for(size_t i=0;i<sizeof(T);i++) p[i]=(u8)(x>>(8*(sizeof(T)-1-i))); }
template<class T> void stl(T x,u8*p){ for(size_t i=0;i<sizeof(T);i++) p[i]=(u8)(x>>(8*i)); }
inline Bytes zpad(Bytes k,size_t n){ if(k.size()<n) k.resize(n,0); return k; }

struct Block {
  virtual ~Block(){}
  virtual void enc(const u8*in,u8*out)=0;
  virtual void dec(const u8*in,u8*out)=0;
  virtual void tweak(const Bytes&){}
};
struct BlockSpec {
  std::string name; unsigned bs, maxkey, maxtweak;
  std::function<std::unique_ptr<Block>(unsigned rounds,const Bytes&key)> make; // rounds 0 = default
  // explicit round counts for which the cipher is defined, for a key of that length
  std::function<std::vector<unsigned>(unsigned key_len)> rounds;
};
const std::vector<BlockSpec>& blocks();
const BlockSpec& block(const std::string&name);
// a GOST 28147-89 cipher with arbitrary S-boxes
std::unique_ptr<Block> gost(const u8 s[8][16],unsigned rounds,const Bytes&key);

// A primitive hash: one-shot with all parameters; out_len is the length the
// instance was created for (it selects the variant), n is how much output to produce.
struct HashSpec {
  std::string name; unsigned maxout, blocksize; u64 maxsalt;
  std::function<Bytes(unsigned rounds,const Bytes&salt,const Bytes&msg,size_t out_len,size_t n)> run;
  std::function<std::vector<unsigned>()> rounds;
};
const std::vector<HashSpec>& hashes();
const HashSpec& hash(const std::string&name);

// streaming views used for very long messages
Bytes skein(unsigned nwords,unsigned rounds,const Bytes&key,const Bytes&nonce,const Bytes&msg,u64 out_bits,size_t n);
Bytes sponge1600(unsigned rounds,unsigned rate,u8 pad,const Bytes&msg,size_t n);
Bytes sponge800(unsigned rounds,unsigned rate,u8 pad,const Bytes&msg,size_t n);

// keystream generators
Bytes chacha_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n,u64 first_block=0);
Bytes salsa20_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n,u64 first_block=0);
Bytes rc4_ks(unsigned drop,const Bytes&key,size_t n);
Bytes keccak1600_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n);
Bytes keccak800_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n);
Bytes skein_ks(unsigned nwords,unsigned rounds,const Bytes&key,const Bytes&iv,size_t n);
// block modes
Bytes mode_crypt(const std::string&mode,Block&b,unsigned bs,const Bytes&iv,const Bytes&in,bool decrypt);

// MACs: generic function producing the tag of `n` bytes
typedef std::function<Bytes(const Bytes&)> Fn;
Bytes hmac(const HashSpec&h,unsigned rounds,const Bytes&key,const Bytes&msg,size_t tag_len,size_t n);
Bytes omac(Block&b,unsigned bs,const Bytes&msg,size_t n);
Bytes xcbc(const BlockSpec&bs,unsigned rounds,const Bytes&key,const Bytes&msg,size_t n);

typedef std::function<Bytes(const Bytes&key,const Bytes&msg)> Prf; // full length output
// exponents (below 8n) of the OMAC reduction polynomial for blocks of `bits` bits
std::vector<unsigned> gf_poly(unsigned bits);
struct AeOut { Bytes out, tag; };
AeOut eax(const BlockSpec&s,unsigned rounds,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tag);
AeOut eax2(const std::function<Bytes(const Bytes&key,const Bytes&iv,const Bytes&in,bool dec)>&stream,u64 smaxkey,u64 smaxiv,const std::function<Bytes(const Bytes&key,const Bytes&msg,size_t tl)>&mac,u64 mmaxkey,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tl);
Bytes pbkdf2(const Prf&f,const Bytes&pass,const Bytes&salt,unsigned iter,size_t n);
Bytes scrypt(const Prf&f,const Bytes&pass,const Bytes&salt,u64 N,u32 r,u32 p,size_t n);
}
