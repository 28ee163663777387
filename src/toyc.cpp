#include "toyc.h"
#include <string.h>
#include <stdlib.h>
extern "C" {
#include <kripto/desc/block.h>
}
void toy_enc(const uint8_t*k,unsigned kl,unsigned r,unsigned n,const uint8_t*in,uint8_t*out){ uint8_t x[255]; memcpy(x,in,n); for(unsigned j=0;j<r;j++) for(unsigned i=0;i<n;i++){ unsigned q=n>1?(i+1)%n:0; uint8_t v=x[i]^k[(j*n+i*7)%kl]; v=(v<<3|v>>5)*0x9d; if(n>1) v+=(uint8_t)(x[q]^(x[(i+n-1)%n]<<1)); x[i]=v+(uint8_t)(17*j+i+kl); } memcpy(out,x,n); }
static uint8_t inv(uint8_t m){ uint8_t x=m; for(int i=0;i<4;i++) x*=2-m*x; return x; }
void toy_dec(const uint8_t*k,unsigned kl,unsigned r,unsigned n,const uint8_t*in,uint8_t*out){ uint8_t x[255]; memcpy(x,in,n); static const uint8_t im=inv(0x9d); for(unsigned j=r;j-->0;) for(unsigned i=n;i-->0;){ unsigned q=n>1?(i+1)%n:0; uint8_t v=x[i]-(uint8_t)(17*j+i+kl); if(n==2) { v-=(uint8_t)(x[q]^(x[q]<<1)); } else if(n>1) v-=(uint8_t)(x[q]^(x[(i+n-1)%n]<<1)); v*=im; v=(v>>3|v<<5); x[i]=v^k[(j*n+i*7)%kl]; } memcpy(out,x,n); }
struct T { const kripto_desc_block*desc; unsigned r,kl; uint8_t k[255]; };
static kripto_block* tcreate(const kripto_desc_block*d,unsigned r,const void*k,unsigned kl){ T*t=(T*)malloc(sizeof(T)); if(!t) return 0; t->desc=d; t->r=r?r:5; t->kl=kl; memcpy(t->k,k,kl); return (kripto_block*)t; }
static void tdestroy(kripto_block*s){ memset(s,0,sizeof(T)); __asm__ volatile(""::"r"(s):"memory"); free(s); }
// replaces the object when the round count changes, as many of the library's ciphers do
static kripto_block* trecreate(kripto_block*s,unsigned r,const void*k,unsigned kl){ T*t=(T*)s; if(!r) r=5; if(r!=t->r){ T*n=(T*)malloc(sizeof(T)); if(!n){ tdestroy(s); return 0; } n->desc=t->desc; tdestroy(s); t=n; } t->r=r; t->kl=kl; memmove(t->k,k,kl); return (kripto_block*)t; }
static void tenc(const kripto_block*s,const void*i,void*o){ const T*t=(const T*)s; toy_enc(t->k,t->kl,t->r,t->desc->blocksize,(const uint8_t*)i,(uint8_t*)o); }
static void tdec(const kripto_block*s,const void*i,void*o){ const T*t=(const T*)s; toy_dec(t->k,t->kl,t->r,t->desc->blocksize,(const uint8_t*)i,(uint8_t*)o); }
static kripto_desc_block descs[256];
kripto_desc_block* toy_desc(unsigned bs){ kripto_desc_block*d=&descs[bs]; if(!d->create){ d->recreate=trecreate; d->encrypt=tenc; d->decrypt=tdec; d->destroy=tdestroy; d->blocksize=bs; d->maxkey=255; d->maxtweak=0; d->create=tcreate; } return d; }
