// C wrapper of the reference model for validate.py
#include "../ref.h"
using namespace ref;
extern "C" int c_block(const char*name,unsigned r,const u8*k,unsigned kl,const u8*in,u8*out,int dec){ try{ auto&s=block(name); auto b=s.make(r,Bytes(k,k+kl)); if(dec) b->dec(in,out); else b->enc(in,out); return s.bs; }catch(...){ return -1; } }
extern "C" int c_hash(const char*name,unsigned r,const u8*salt,unsigned sl,const u8*m,size_t n,unsigned ol,u8*out){ try{ Bytes o=hash(name).run(r,Bytes(salt,salt+sl),Bytes(m,m+n),ol,ol); memcpy(out,o.data(),ol); return 0; }catch(...){ return -1; } }
extern "C" void c_ks(int w,unsigned r,const u8*k,unsigned kl,const u8*iv,unsigned il,u8*out,size_t n){ Bytes K(k,k+kl),I(iv,iv+il),o=w==0?chacha_ks(r,K,I,n):w==1?salsa20_ks(r,K,I,n):rc4_ks(r,K,n); memcpy(out,o.data(),n); }
extern "C" void c_scrypt(const u8*p,unsigned pl,const u8*s,unsigned sl,u64 N,u32 r,u32 pp,u8*out,size_t n){ auto&h=hash("sha2_256"); Prf f=[&](const Bytes&k,const Bytes&m){ return hmac(h,0,k,m,32,32); }; Bytes o=scrypt(f,Bytes(p,p+pl),Bytes(s,s+sl),N,r,pp,n); memcpy(out,o.data(),n); }
extern "C" void c_pbkdf2(const char*hn,const u8*p,unsigned pl,const u8*s,unsigned sl,unsigned it,u8*out,size_t n){ auto&h=hash(hn); Prf f=[&](const Bytes&k,const Bytes&m){ return hmac(h,0,k,m,h.maxout,h.maxout); }; Bytes o=pbkdf2(f,Bytes(p,p+pl),Bytes(s,s+sl),it,n); memcpy(out,o.data(),n); }
extern "C" void c_hmac(const char*hn,const u8*p,unsigned pl,const u8*m,size_t ml,u8*out,unsigned n){ Bytes o=hmac(hash(hn),0,Bytes(p,p+pl),Bytes(m,m+ml),n,n); memcpy(out,o.data(),n); }
extern "C" int c_cmac(const char*bn,const u8*k,unsigned kl,const u8*m,size_t ml,u8*out){ auto&s=block(bn); Bytes o=omac(*s.make(0,Bytes(k,k+kl)),s.bs,Bytes(m,m+ml),s.bs); memcpy(out,o.data(),s.bs); return s.bs; }
extern "C" void c_mode(const char*mode,const char*bn,const u8*k,unsigned kl,const u8*iv,unsigned il,const u8*in,size_t n,u8*out,int dec){ auto&s=block(bn); auto b=s.make(0,Bytes(k,k+kl)); Bytes o=mode_crypt(mode,*b,s.bs,Bytes(iv,iv+il),Bytes(in,in+n),dec); memcpy(out,o.data(),n); }
extern "C" void c_skein(unsigned nw,const u8*k,unsigned kl,const u8*m,size_t n,unsigned ol,u8*out){ Bytes o=skein(nw,0,Bytes(k,k+kl),Bytes(),Bytes(m,m+n),ol*8ull,ol); memcpy(out,o.data(),ol); }
