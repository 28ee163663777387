// Executes operation sequences. Part of every library variant, compiled with the variant's
// instrumentation; uses only the public interface of the library.
#include "machine.h"
#include "bind.h"
#include "toyc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <exception>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
extern "C" { void __msan_scoped_disable_interceptor_checks(void); void __msan_scoped_enable_interceptor_checks(void); }
#endif
#endif
extern "C" { extern void (*vx_free_desc)(void*); void* vx_hooks(void); }
struct DescEnt { Cfg c; void*d; };
static std::vector<DescEnt> g_shared;
static unsigned xcbc_ok(const kripto_desc_block*b){ return kripto_block_size(b)<=kripto_block_maxkey(b); }
static const kripto_desc_block* blk(unsigned a){ return a>=1000?toy_desc(a-1000):g_blocks[a].d; }
// everything the harness builds lazily, before threads start
static void ready(){ static bool done; if(done) return; bind_init(); for(unsigned i=1;i<256;i++) toy_desc(i); done=true; }
struct Slot { uint8_t fam; void*o; Cfg cfg; };
struct Exec { const Prog*p; unsigned flags; Bytes out; char err[400]; Slot s[NSLOT]; std::vector<DescEnt> own;
  std::vector<DescEnt>& cache(){ return flags&1?g_shared:own; }
  void bad(const char*f,...){ if(err[0]) return; va_list a; va_start(a,f); vsnprintf(err,sizeof err,f,a); va_end(a); } };
static void* desc(std::vector<DescEnt>&v,const Cfg&c){ if(c.fam==1) return (void*)blk(c.a); if(c.fam==2) return (void*)g_hashes[c.a].d; if(c.fam==3&&c.kind==3) return (void*)g_macs[c.a].d; if(c.fam==4&&c.kind==9) return (void*)g_streams[c.a].d;
  for(size_t i=0;i<v.size();i++) if(v[i].c==c) return v[i].d; void*d=0;
  if(c.fam==3) d=c.kind==0?lhmac(g_hashes[c.a].d):c.kind==1?lomac(blk(c.a)):lxcbc(blk(c.a)); else if(c.fam==4) d=lmode(c.kind,blk(c.a));
  else if(c.kind==0) d=leax(blk(c.a)); else { Cfg s; s.fam=4; s.kind=c.sk; s.a=c.a; Cfg m; m.fam=3; m.kind=c.mk; m.a=c.b; void*x=desc(v,s),*y=x?desc(v,m):0; if(!x||!y) return 0; d=leax2((kripto_desc_stream*)x,(kripto_desc_mac*)y); }
  if(d){ DescEnt e; e.c=c; e.d=d; v.push_back(e); } return d; }
// input of exactly n bytes; its contents must not change
struct In { Exec*e; uint8_t*raw,*p; size_t n; const Bytes&b; In(Exec*e,const Bytes&b,unsigned mis):e(e),n(b.size()),b(b){ size_t m=n?mis:16; raw=(uint8_t*)malloc(n+m); p=raw+m; if(n) memcpy(p,b.data(),n); } ~In(){ if(n&&memcmp(p,b.data(),n)) e->bad("an input buffer was modified"); free(raw); } };
struct Ob { Exec*e; uint8_t*raw,*p; size_t n; Ob(Exec*e,size_t n,unsigned mis):e(e),n(n){ size_t m=n?mis:16; raw=(uint8_t*)malloc(n+m); p=raw+m; } 
  void take(){
#ifdef MSAN
    if(n) __msan_check_mem_is_initialized(p,n);
#endif
    e->out.insert(e->out.end(),p,p+n); } ~Ob(){ free(raw); } };
static int crypt(Exec*e,const Op&o,void (*f)(void*,const void*,void*,size_t),void*obj){ if(o.inplace){ Ob b(e,o.a.size(),o.mis); if(b.n) memcpy(b.p,o.a.data(),b.n); f(obj,b.p,b.p,b.n); b.take(); } else { In i(e,o.a,o.mis); Ob b(e,o.a.size(),(o.mis*5)&15); f(obj,i.p,b.p,b.n); b.take(); } return 0; }
static void benc(void*o,const void*i,void*q,size_t n){ kripto_block_encrypt((kripto_block*)o,i,q); } static void bdec(void*o,const void*i,void*q,size_t n){ kripto_block_decrypt((kripto_block*)o,i,q); }
static void senc(void*o,const void*i,void*q,size_t n){ kripto_stream_encrypt((kripto_stream*)o,i,q,n); } static void sdec(void*o,const void*i,void*q,size_t n){ kripto_stream_decrypt((kripto_stream*)o,i,q,n); }
static void aenc(void*o,const void*i,void*q,size_t n){ kripto_ae_encrypt((kripto_ae*)o,i,q,n); } static void adec(void*o,const void*i,void*q,size_t n){ kripto_ae_decrypt((kripto_ae*)o,i,q,n); }
static void destroy(Slot&s){ switch(s.fam){ case 1: kripto_block_destroy((kripto_block*)s.o); break; case 2: kripto_hash_destroy((kripto_hash*)s.o); break; case 3: kripto_mac_destroy((kripto_mac*)s.o); break; case 4: kripto_stream_destroy((kripto_stream*)s.o); break; case 5: kripto_ae_destroy((kripto_ae*)s.o); break; } s.fam=0; s.o=0; }
static void num(Exec*e,uint64_t v){ for(int i=0;i<8;i++) e->out.push_back((uint8_t)(v>>(8*i))); }
static int op(Exec*e,const Op&o){ Slot&s=e->s[o.slot%NSLOT];
  switch(o.k){
  case CREATE: { if(s.fam) return 3; void*d=desc(e->cache(),o.cfg); if(!d) return 1; In k(e,o.a,o.mis),iv(e,o.b,0); void*q=0; const void*ivp=o.b.empty()&&(o.mis&1)?0:iv.p; switch(o.cfg.fam){
      case 1: q=kripto_block_create((kripto_desc_block*)d,o.rounds,k.p,k.n); break; case 2: q=kripto_hash_create((kripto_desc_hash*)d,o.rounds,ivp,iv.n,o.n); break; case 3: q=kripto_mac_create((kripto_desc_mac*)d,o.rounds,k.p,k.n,o.n); break;
      case 4: q=kripto_stream_create((kripto_desc_stream*)d,o.rounds,k.p,k.n,ivp,iv.n); break; case 5: q=kripto_ae_create((kripto_desc_ae*)d,o.rounds,k.p,k.n,ivp,iv.n,o.n); break; }
    if(!q) return 1; s.fam=o.cfg.fam; s.o=q; s.cfg=o.cfg; return 0; }
  case RECREATE: { if(!s.fam||s.fam!=o.cfg.fam) return 3; In k(e,o.a,o.mis),iv(e,o.b,0); void*q=0; const void*ivp=o.b.empty()&&(o.mis&1)?0:iv.p; switch(s.fam){
      case 1: q=kripto_block_recreate((kripto_block*)s.o,o.rounds,k.p,k.n); break; case 2: q=kripto_hash_recreate((kripto_hash*)s.o,o.rounds,ivp,iv.n,o.n); break; case 3: q=kripto_mac_recreate((kripto_mac*)s.o,o.rounds,k.p,k.n,o.n); break;
      case 4: q=kripto_stream_recreate((kripto_stream*)s.o,o.rounds,k.p,k.n,ivp,iv.n); break; case 5: q=kripto_ae_recreate((kripto_ae*)s.o,o.rounds,k.p,k.n,ivp,iv.n,o.n); break; }
    s.o=q; if(!q){ s.fam=0; return 1; } return 0; }
  case DESTROY: if(!s.fam) return 3; destroy(s); return 0;
  case TWEAK: { if(s.fam!=1) return 3; In t(e,o.a,o.mis); kripto_block_tweak((kripto_block*)s.o,t.p,t.n); return 0; }
  case ENC: if(s.fam==1) return crypt(e,o,benc,s.o); if(s.fam==4) return crypt(e,o,senc,s.o); if(s.fam==5) return crypt(e,o,aenc,s.o); return 3;
  case DEC: if(s.fam==1) return crypt(e,o,bdec,s.o); if(s.fam==4) return crypt(e,o,sdec,s.o); if(s.fam==5) return crypt(e,o,adec,s.o); return 3;
  case HIN: { if(s.fam!=2) return 3; In i(e,o.a,o.mis); kripto_hash_input((kripto_hash*)s.o,i.p,i.n); return 0; }
  case HOUT: { if(s.fam!=2) return 3; Ob b(e,o.n,o.mis); kripto_hash_output((kripto_hash*)s.o,b.p,b.n); b.take(); return 0; }
  case MIN: { if(s.fam!=3) return 3; In i(e,o.a,o.mis); kripto_mac_input((kripto_mac*)s.o,i.p,i.n); return 0; }
  case MTAG: { if(s.fam!=3) return 3; Ob b(e,o.n,o.mis); kripto_mac_tag((kripto_mac*)s.o,b.p,b.n); b.take(); return 0; }
  case MVERIFY: { if(s.fam!=3) return 3; In i(e,o.a,o.mis); int r=kripto_mac_verify((kripto_mac*)s.o,i.p,i.n); e->out.push_back(r!=0); return 0; }
  case PRNG: { if(s.fam!=4) return 3; Ob b(e,o.n,o.mis); kripto_stream_prng((kripto_stream*)s.o,b.p,b.n); b.take(); return 0; }
  case HEADER: { if(s.fam!=5) return 3; In i(e,o.a,o.mis); kripto_ae_header((kripto_ae*)s.o,i.p,i.n); return 0; }
  case ATAG: { if(s.fam!=5) return 3; Ob b(e,o.n,o.mis); kripto_ae_tag((kripto_ae*)s.o,b.p,b.n); b.take(); return 0; }
  case AVERIFY: { if(s.fam!=5) return 3; In i(e,o.a,o.mis); int r=kripto_ae_verify((kripto_ae*)s.o,i.p,i.n); e->out.push_back(r!=0); return 0; }
  case HALL: { In i(e,o.a,o.mis),t(e,o.b,0); Ob b(e,o.n,o.mis); int r=kripto_hash_all(g_hashes[o.cfg.a].d,o.rounds,o.b.empty()&&(o.mis&1)?0:t.p,t.n,i.p,i.n,b.p,b.n); if(r) return 1; b.take(); return 0; }
  case MALL: { void*d=desc(e->cache(),o.cfg); if(!d) return 1; In k(e,o.a,o.mis),i(e,o.b,(o.mis*3)&15); Ob b(e,o.n,o.mis); int r=kripto_mac_all((kripto_desc_mac*)d,o.rounds,k.p,k.n,i.p,i.n,b.p,b.n); if(r) return 1; b.take(); return 0; }
  case PBKDF2: { void*d=desc(e->cache(),o.cfg); if(!d) return 1; In k(e,o.a,o.mis),i(e,o.b,(o.mis*3)&15); Ob b(e,o.n,o.mis); int r=kripto_pbkdf2((kripto_desc_mac*)d,o.rounds,o.iter,k.p,k.n,i.p,i.n,b.p,b.n); if(r) return 1; b.take(); return 0; }
  case SCRYPT: { void*d=desc(e->cache(),o.cfg); if(!d) return 1; In k(e,o.a,o.mis),i(e,o.b,(o.mis*3)&15); Ob b(e,o.n,o.mis); int r=kripto_scrypt((kripto_desc_mac*)d,o.rounds,o.N,o.r,o.p,k.p,k.n,i.p,i.n,b.p,b.n); if(r) return 1; b.take(); return 0; }
  case PADD: { Ob b(e,o.p,o.mis); if(b.n<o.a.size()) return 3; if(o.a.size()) memcpy(b.p,o.a.data(),o.a.size()); size_t r=kripto_pkcs7_add(b.p,o.a.size(),o.n,o.p); num(e,r); if(r>b.n) e->bad("pkcs7_add returned more than the capacity"); else { b.n=r?r:o.a.size(); b.take(); } return 0; }
  case PREM: { In i(e,o.a,o.mis); num(e,kripto_pkcs7_rem(i.p,i.n)); return 0; }
  case MEQ: { In i(e,o.a,o.mis),j(e,o.b,(o.mis*3)&15); if(i.n!=j.n) return 3; e->out.push_back(kripto_memory_equals(i.p,j.p,i.n)!=0); return 0; }
  case WIPE: { Ob b(e,o.a.size(),o.mis); if(b.n) memcpy(b.p,o.a.data(),b.n); kripto_memory_wipe(b.p,b.n); b.take(); return 0; }
  case RANDOM: { kripto_random*g=kripto_random_create(); if(!g) return 1; { Ob b(e,o.n,o.mis); size_t n=kripto_random_gen(g,b.p,b.n); if(n>b.n) e->bad("kripto_random_gen returned more than asked for");
#ifdef MSAN
      else if(n) __msan_check_mem_is_initialized(b.p,n);
#endif
      num(e,n); } if(o.r){ int r=kripto_random_test(g); (void)r; } kripto_random_destroy(g); return 0; }
  } return 3; }
extern "C" {
__attribute__((visibility("default"))) Exec* vx_new(const Prog*p,unsigned flags){
#ifdef MSAN
  __msan_unpoison_param(2); __msan_unpoison(p,sizeof *p); __msan_unpoison(p->data(),p->size()*sizeof(Op)); for(const Op&o:*p) for(const Bytes*b:{&o.a,&o.b,&o.c}) if(b->size()) __msan_unpoison(b->data(),b->size());
#endif
  ready(); Exec*e=new Exec; e->p=p; e->flags=flags; e->err[0]=0; memset(e->s,0,sizeof e->s); return e; }
__attribute__((visibility("default"))) int vx_op(Exec*e,size_t i){
#ifdef MSAN
  __msan_unpoison_param(2); __msan_scoped_enable_interceptor_checks();
#endif
  int r; try { r=op(e,(*e->p)[i]); } catch(const std::exception&x){ r=2; e->bad("%s",x.what()); }
#ifdef MSAN
  __msan_scoped_disable_interceptor_checks();
#endif
  return e->err[0]?2:r; }
__attribute__((visibility("default"))) const Bytes* vx_out(Exec*e){ return &e->out; }
__attribute__((visibility("default"))) void* vx_obj(Exec*e,unsigned slot){ return e->s[slot].o; }
__attribute__((visibility("default"))) size_t vx_owned(Exec*e){ return e->own.size(); }
__attribute__((visibility("default"))) const char* vx_err(Exec*e){ return e->err; }
__attribute__((visibility("default"))) void vx_finish(Exec*e){
#ifdef MSAN
  __msan_unpoison_param(1);
#endif
  for(unsigned i=0;i<NSLOT;i++) if(e->s[i].fam) destroy(e->s[i]); while(!e->own.empty()){ vx_free_desc(e->own.back().d); e->own.pop_back(); } delete e; }
__attribute__((visibility("default"))) void vx_prepare(const Prog*p){ ready(); for(const Op&o:*p) if(o.k==CREATE||o.k==MALL||o.k==PBKDF2||o.k==SCRYPT) desc(g_shared,o.cfg); }
__attribute__((visibility("default"))) void* vx_desc(const Cfg*c){ ready(); return desc(g_shared,*c); }
__attribute__((visibility("default"))) void* vx_hook(void){ return vx_hooks(); }
}
