#include "hook.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#define TN (1u<<15)
static struct { void*p; size_t n; int state; } T[TN]; // state 0 empty 1 live 2 released
static unsigned used_slots;
static struct Hook H;
void (*vx_free_desc)(void*);
static unsigned slot(void*p){ uintptr_t x=(uintptr_t)p>>3; unsigned i=(unsigned)((x*0x9E3779B97F4A7C15ull)>>49)&(TN-1); while(T[i].state&&T[i].p!=p) i=(i+1)&(TN-1); return i; }
static void reset(void){ memset(T,0,sizeof T); used_slots=0; H.count=H.failed=0; H.nfail=0; H.fail_from=0; H.live=0; H.live_bytes=0; H.err[0]=0; H.used=0; H.rel_len=0; H.rel_over=0; H.releases=0; H.refuse_above=0; }
static int leak(size_t*n){ for(unsigned i=0;i<TN;i++) if(T[i].state==1){ *n=T[i].n; return 1; } return 0; }
static void note(void*p,size_t n){ if(used_slots>TN*3/4) return; unsigned i=slot(p); if(!T[i].state) used_slots++; T[i].p=p; T[i].n=n; T[i].state=1; H.live++; H.live_bytes+=n; }
void* vp_malloc(size_t n){ H.count++; int f=H.fail_from&&H.count>=H.fail_from; for(unsigned i=0;i<H.nfail;i++) if(H.fail[i]==H.count) f=1; if(H.refuse_above&&n>H.refuse_above) f=1; if(f){ H.failed++; errno=ENOMEM; return 0; }
  void*p; if(H.arena){ size_t m=(n+15)/16*16+16; if(H.used+m>H.cap){ errno=ENOMEM; return 0; } p=H.base+H.used; H.used+=m; memset(p,0xA7,m); } else p=malloc(n?n:1); if(p) note(p,n); return p; }
static int in_arena(void*p){ return (uint8_t*)p>=H.base&&(uint8_t*)p<H.base+H.cap; }
void vp_free(void*p){ if(!p) return; unsigned i=slot(p); if(T[i].state==2&&in_arena(p)){ if(!H.err[0]) snprintf(H.err,sizeof H.err,"a block of %zu bytes was released twice",T[i].n); return; }
  if(T[i].state==1){ T[i].state=2; H.live--; H.live_bytes-=T[i].n; H.releases++;
    if(H.arena&&in_arena(p)){ size_t n=T[i].n; uint64_t h[2]={(uint64_t)((uint8_t*)p-H.base),n}; if(H.rel_len+n+16<=H.rel_cap){ memcpy(H.rel+H.rel_len,h,16); memcpy(H.rel+H.rel_len+16,p,n); H.rel_len+=16+n; } else H.rel_over=1; memset(p,0xDD,n); return; } }
  if(H.base&&in_arena(p)){ if(!H.err[0]) snprintf(H.err,sizeof H.err,"an address that was never allocated was released"); return; }
  free(p); }
void* vp_calloc(size_t a,size_t b){ if(b&&a>(size_t)-1/b){ errno=ENOMEM; return 0; } void*p=vp_malloc(a*b); if(p) memset(p,0,a*b); return p; }
void* vp_realloc(void*q,size_t n){ if(!q) return vp_malloc(n); if(!n){ vp_free(q); return 0; } unsigned i=slot(q); size_t o=T[i].state==1?T[i].n:0; void*p=vp_malloc(n); if(!p) return 0; memcpy(p,q,o<n?o:n); vp_free(q); return p; }
int vp_posix_memalign(void**r,size_t a,size_t n){ if(a<=16){ *r=vp_malloc(n); return *r?0:ENOMEM; } H.count++; int f=H.fail_from&&H.count>=H.fail_from; for(unsigned i=0;i<H.nfail;i++) if(H.fail[i]==H.count) f=1; if(f){ H.failed++; return ENOMEM; } if(H.arena){ uintptr_t at=((uintptr_t)H.base+H.used+a-1)/a*a-(uintptr_t)H.base; size_t m=(n+15)/16*16+16; if(at+m>H.cap) return ENOMEM; H.used=at+m; *r=H.base+at; memset(*r,0xA7,n); } else { int e=posix_memalign(r,a,n); if(e) return e; } note(*r,n); return 0; }
void* vp_aligned_alloc(size_t a,size_t n){ void*p=0; if(vp_posix_memalign(&p,a,n)) return 0; return p; }
void* vx_hooks(void){ if(!H.reset){ H.reset=reset; H.leak=leak; H.alloc=vp_malloc; H.release=vp_free; vx_free_desc=vp_free; } return &H; }
__attribute__((constructor)) static void init(void){ vx_hooks(); }
