/* control-flow recorder for library objects compiled with -fsanitize-coverage=trace-pc */
#include <stddef.h>
#include <stdint.h>
static __thread int on; static __thread uint64_t h, n;
static void mix(uint64_t v){ h=(h^v)*1099511628211ull; h^=h>>29; n++; }
void __sanitizer_cov_trace_pc(void){ if(on) mix((uint64_t)__builtin_return_address(0)); }
void vt_begin(void){ h=1469598103934665603ull; n=0; on=1; }
void vt_end(uint64_t*a,uint64_t*b){ on=0; *a=h; *b=n; }
/* comparison functions of the C library stop at the first difference: record where */
static int cmp(const void*a,const void*b,size_t m,int str){ const unsigned char*x=a,*y=b; size_t i; for(i=0;i<m;i++){ if(x[i]!=y[i]) break; if(str&&!x[i]) break; } if(on) mix(i+0x1000); if(i==m||x[i]==y[i]) return 0; return x[i]<y[i]?-1:1; }
int vt_memcmp(const void*a,const void*b,size_t m){ return cmp(a,b,m,0); }
int vt_bcmp(const void*a,const void*b,size_t m){ return cmp(a,b,m,0); }
int vt___memcmpeq(const void*a,const void*b,size_t m){ return cmp(a,b,m,0); }
int vt_strcmp(const char*a,const char*b){ return cmp(a,b,(size_t)-1,1); }
int vt_strncmp(const char*a,const char*b,size_t m){ return cmp(a,b,m,1); }
void*vt_memchr(const void*a,int c,size_t m){ const unsigned char*x=a; size_t i; for(i=0;i<m;i++) if(x[i]==(unsigned char)c) break; if(on) mix(i+0x2000); return i<m?(void*)(x+i):0; }
size_t vt_strlen(const char*a){ size_t i=0; while(a[i]) i++; if(on) mix(i+0x3000); return i; }
