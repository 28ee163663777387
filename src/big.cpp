#include "big.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
static uint8_t* mapall(bool fill){ int fd=memfd_create("vp",0); if(fd<0||ftruncate(fd,BIG_UNIT)) return 0; uint8_t*base=(uint8_t*)mmap(0,BIG_SIZE,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) return 0;
  for(size_t o=0;o<BIG_SIZE;o+=BIG_UNIT) if(mmap(base+o,BIG_UNIT,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED) return 0;
  close(fd); if(fill){ uint64_t x=0x1234567; for(size_t i=0;i<BIG_UNIT;i+=8){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; z^=z>>31; memcpy(base+i,&z,8); } mprotect(base,BIG_SIZE,PROT_READ); } return base; }
const uint8_t* big_region(){ static uint8_t*b=mapall(true); return b; }
uint8_t* big_scratch(){ static uint8_t*b=mapall(false); return b; }

#include <cstdlib>
extern "C" {
#include <kripto/desc/block.h>
}
struct FC { const kripto_desc_block*desc; uint8_t k[240]; };
static kripto_block* f_create(const kripto_desc_block*d,unsigned,const void*k,unsigned n){ FC*s=(FC*)calloc(1,sizeof(FC)); if(!s) return 0; s->desc=d; for(unsigned i=0;i<240;i++) s->k[i]=n?((const uint8_t*)k)[i%n]+i*13:i; return (kripto_block*)s; }
static void f_destroy(kripto_block*s){ free(s); }
static kripto_block* f_recreate(kripto_block*s,unsigned r,const void*k,unsigned n){ const kripto_desc_block*d=((FC*)s)->desc; f_destroy(s); return f_create(d,r,k,n); }
static void f_enc(const kripto_block*s,const void*i,void*o){ const FC*c=(const FC*)s; uint8_t x[240]; const uint8_t*p=(const uint8_t*)i; for(int j=0;j<240;j++) x[j]=(uint8_t)((p[j]^c->k[j])*5+1); uint8_t t=x[0]; x[0]=x[239]^x[17]; x[239]=t; memcpy(o,x,240); }
static void f_dec(const kripto_block*s,const void*i,void*o){ const FC*c=(const FC*)s; uint8_t x[240]; memcpy(x,i,240); uint8_t t=x[239]; x[239]=x[0]^x[17]; x[0]=t; for(int j=0;j<240;j++) x[j]=(uint8_t)((uint8_t)(x[j]-1)*205)^c->k[j]; memcpy(o,x,240); }
const kripto_desc_block* fast_cipher(){ static kripto_desc_block d; if(!d.create){ d.recreate=f_recreate; d.encrypt=f_enc; d.decrypt=f_dec; d.destroy=f_destroy; d.blocksize=240; d.maxkey=240; d.maxtweak=0; d.create=f_create; } return &d; }

extern "C" {
#include <kripto/desc/mac.h>
}
struct FM { const kripto_desc_mac*desc; uint64_t h; };
static uint64_t f_mix(uint64_t h,const uint8_t*p,size_t n){ for(size_t i=0;i<n;i++) h=(h^p[i])*0x100000001b3ull+(h>>47); return h; }
static void f_tag(uint64_t h,uint8_t*o,size_t n){ for(size_t i=0;i<n;i+=8){ uint64_t z=(h+=0x9e3779b97f4a7c15ull); z=(z^(z>>29))*0xbf58476d1ce4e5b9ull; z^=z>>32; memcpy(o+i,&z,n-i<8?n-i:8); } }
static kripto_mac* m_create(const kripto_desc_mac*d,unsigned,const void*k,unsigned n,unsigned){ FM*s=(FM*)calloc(1,sizeof(FM)); if(!s) return 0; s->desc=d; s->h=f_mix(1,(const uint8_t*)k,n); return (kripto_mac*)s; }
static void m_destroy(kripto_mac*s){ free(s); }
static kripto_mac* m_recreate(kripto_mac*s,unsigned r,const void*k,unsigned n,unsigned t){ const kripto_desc_mac*d=((FM*)s)->desc; m_destroy(s); return m_create(d,r,k,n,t); }
static void m_input(kripto_mac*s,const void*p,size_t n){ ((FM*)s)->h=f_mix(((FM*)s)->h,(const uint8_t*)p,n); }
static void m_tag(kripto_mac*s,void*o,unsigned n){ f_tag(((FM*)s)->h,(uint8_t*)o,n); }
const kripto_desc_mac* fast_mac(){ static kripto_desc_mac d; if(!d.create){ d.recreate=m_recreate; d.input=m_input; d.tag=m_tag; d.destroy=m_destroy; d.maxtag=FAST_TAG; d.maxkey=1024; d.create=m_create; } return &d; }
void fast_tag(const uint8_t*k,size_t kn,const uint8_t*m,size_t mn,uint8_t*o){ f_tag(f_mix(f_mix(1,k,kn),m,mn),o,FAST_TAG); }
const kripto_desc_mac* quick_mac(){ static kripto_desc_mac d; if(!d.create){ d.recreate=m_recreate; d.input=m_input; d.tag=m_tag; d.destroy=m_destroy; d.maxtag=QUICK_TAG; d.maxkey=~0u; d.create=m_create; } return &d; }
void quick_tag(const uint8_t*k,size_t kn,const uint8_t*m,size_t mn,uint8_t*o){ f_tag(f_mix(f_mix(1,k,kn),m,mn),o,QUICK_TAG); }
