// The public interface of the library, carried out by the library of an emulated machine (image VP_IMAGE):
// arguments and results are copied between the two memories, with guard bytes round every buffer.
#include "emu.h"
#include "bind.h"
#include "toyc.h"
#include <cstring>
#include <cstdlib>
extern "C" { extern void (*vx_free_desc)(void*); extern const struct { const char*name; const void**p; } emu_syms[]; }
static Guest* g; typedef Guest::Arg A;
static uint32_t ptr(const void*p){ return (uint32_t)(uintptr_t)p; } static void* hst(uint64_t a){ return (void*)(uintptr_t)(uint32_t)a; }
static uint32_t fn(const char*n,uint32_t&c){ if(!c) c=g->sym(n); return c; }
#define F(n) ({ static uint32_t c_; fn(n,c_); })
#define SC Guest::Scope sc_(*g)
#define U Guest::U
#define P Guest::P
#define W Guest::W
static uint64_t cl(uint32_t f,const std::vector<A>&a){ uint64_t r=g->call(f,a); g->guard_check(); return r; }
static uint32_t in(const void*p,size_t n){ return p?g->put(p,n,(unsigned)(uintptr_t)p&15):0; }
static uint32_t same(const void*p,size_t n,uint32_t a){ if(p&&n&&memcmp(g->mem+a,p,n)) throw std::runtime_error("an input buffer was modified on the emulated machine"); return a; }
struct O { void*p; size_t n; uint32_t a; O(void*p,size_t n):p(p),n(n),a(g->put(p,n,(unsigned)(uintptr_t)p&15)){} void back(){ if(n) memcpy(p,g->mem+a,n); } };
static void gfree(void*d){ g->gfree(ptr(d)); }
__attribute__((constructor(101))) static void start(){ try { g=new Guest(VP_IMAGE); for(auto*s=emu_syms;s->name;s++){ uint32_t a=g->sym(s->name); *s->p=a?hst(g->word(a)):0; } } catch(std::exception&e){ fprintf(stderr,"%s\n",e.what()); _Exit(9); } }
static bool init=(vx_free_desc=gfree,true);
static void crypt(uint32_t f,const void*s,const void*i,void*o,size_t n,bool len){ SC; uint32_t q; if(i==o){ O b(o,n); std::vector<A> a={P(ptr(s)),P(b.a),P(b.a)}; if(len) a.push_back(P(n)); cl(f,a); b.back(); } else { q=in(i,n); O b(o,n); std::vector<A> a={P(ptr(s)),P(q),P(b.a)}; if(len) a.push_back(P(n)); cl(f,a); b.back(); same(i,n,q); } }
static void feed(uint32_t f,void*s,const void*i,size_t n){ SC; uint32_t q=in(i,n); cl(f,{P(ptr(s)),P(q),P(n)}); same(i,n,q); }
static void give(uint32_t f,void*s,void*o,size_t n){ SC; O b(o,n); cl(f,{P(ptr(s)),P(b.a),P(n)}); b.back(); }
static int check(uint32_t f,void*s,const void*t,unsigned n){ SC; uint32_t q=in(t,n); int r=(int)cl(f,{P(ptr(s)),P(q),U(n)}); same(t,n,q); return r; }
// create and recreate: descriptor or object, rounds, one or two buffers, a number
static void* make(uint32_t f,const void*d,unsigned r,const void*k,unsigned kl,int extra=-1,unsigned x=0){ SC; uint32_t q=in(k,kl); std::vector<A> a={P(ptr(d)),U(r),P(q),U(kl)}; if(extra>=0) a.push_back(U(x)); uint64_t v=cl(f,a); same(k,kl,q); return hst(v); }
static void* make2(uint32_t f,const void*d,unsigned r,const void*k,unsigned kl,const void*i,unsigned il,int extra=-1,unsigned x=0){ SC; uint32_t q=in(k,kl),w=in(i,il); std::vector<A> a={P(ptr(d)),U(r),P(q),U(kl),P(w),U(il)}; if(extra>=0) a.push_back(U(x)); uint64_t v=cl(f,a); same(k,kl,q); same(i,il,w); return hst(v); }
static size_t bsize(const kripto_block*s){ return cl(F("kripto_block_size"),{P(cl(F("kripto_block_getdesc"),{P(ptr(s))}))}); }
extern "C" {
kripto_block*kripto_block_create(const kripto_desc_block*d,unsigned r,const void*k,unsigned n){ return (kripto_block*)make(F("kripto_block_create"),d,r,k,n); }
kripto_block*kripto_block_recreate(kripto_block*d,unsigned r,const void*k,unsigned n){ return (kripto_block*)make(F("kripto_block_recreate"),d,r,k,n); }
void kripto_block_tweak(kripto_block*s,const void*t,unsigned n){ SC; uint32_t q=in(t,n); cl(F("kripto_block_tweak"),{P(ptr(s)),P(q),U(n)}); same(t,n,q); }
void kripto_block_encrypt(const kripto_block*s,const void*i,void*o){ crypt(F("kripto_block_encrypt"),s,i,o,bsize(s),false); }
void kripto_block_decrypt(const kripto_block*s,const void*i,void*o){ crypt(F("kripto_block_decrypt"),s,i,o,bsize(s),false); }
#define DESTROY(T) void kripto_##T##_destroy(kripto_##T*s){ cl(F("kripto_" #T "_destroy"),{P(ptr(s))}); }
DESTROY(block) DESTROY(hash) DESTROY(mac) DESTROY(stream) DESTROY(ae)
kripto_hash*kripto_hash_create(const kripto_desc_hash*d,unsigned r,const void*t,unsigned n,unsigned o){ return (kripto_hash*)make(F("kripto_hash_create"),d,r,t,n,1,o); }
kripto_hash*kripto_hash_recreate(kripto_hash*d,unsigned r,const void*t,unsigned n,unsigned o){ return (kripto_hash*)make(F("kripto_hash_recreate"),d,r,t,n,1,o); }
void kripto_hash_input(kripto_hash*s,const void*i,size_t n){ feed(F("kripto_hash_input"),s,i,n); }
void kripto_hash_output(kripto_hash*s,void*o,size_t n){ give(F("kripto_hash_output"),s,o,n); }
int kripto_hash_all(const kripto_desc_hash*d,unsigned r,const void*t,unsigned tn,const void*i,size_t n,void*o,size_t on){ SC; uint32_t a=in(t,tn),b=in(i,n); O q(o,on); int v=(int)cl(F("kripto_hash_all"),{P(ptr(d)),U(r),P(a),U(tn),P(b),P(n),P(q.a),P(on)}); same(t,tn,a); same(i,n,b); q.back(); return v; }
kripto_mac*kripto_mac_create(const kripto_desc_mac*d,unsigned r,const void*k,unsigned n,unsigned t){ return (kripto_mac*)make(F("kripto_mac_create"),d,r,k,n,1,t); }
kripto_mac*kripto_mac_recreate(kripto_mac*d,unsigned r,const void*k,unsigned n,unsigned t){ return (kripto_mac*)make(F("kripto_mac_recreate"),d,r,k,n,1,t); }
void kripto_mac_input(kripto_mac*s,const void*i,size_t n){ feed(F("kripto_mac_input"),s,i,n); }
void kripto_mac_tag(kripto_mac*s,void*o,unsigned n){ give(F("kripto_mac_tag"),s,o,n); }
int kripto_mac_verify(kripto_mac*s,const void*t,unsigned n){ return check(F("kripto_mac_verify"),s,t,n); }
int kripto_mac_all(const kripto_desc_mac*d,unsigned r,const void*k,unsigned kn,const void*i,unsigned n,void*o,unsigned on){ SC; uint32_t a=in(k,kn),b=in(i,n); O q(o,on); int v=(int)cl(F("kripto_mac_all"),{P(ptr(d)),U(r),P(a),U(kn),P(b),U(n),P(q.a),U(on)}); same(k,kn,a); same(i,n,b); q.back(); return v; }
kripto_stream*kripto_stream_create(const kripto_desc_stream*d,unsigned r,const void*k,unsigned n,const void*i,unsigned in_){ return (kripto_stream*)make2(F("kripto_stream_create"),d,r,k,n,i,in_); }
kripto_stream*kripto_stream_recreate(kripto_stream*d,unsigned r,const void*k,unsigned n,const void*i,unsigned in_){ return (kripto_stream*)make2(F("kripto_stream_recreate"),d,r,k,n,i,in_); }
void kripto_stream_encrypt(kripto_stream*s,const void*i,void*o,size_t n){ crypt(F("kripto_stream_encrypt"),s,i,o,n,true); }
void kripto_stream_decrypt(kripto_stream*s,const void*i,void*o,size_t n){ crypt(F("kripto_stream_decrypt"),s,i,o,n,true); }
void kripto_stream_prng(kripto_stream*s,void*o,size_t n){ give(F("kripto_stream_prng"),s,o,n); }
kripto_ae*kripto_ae_create(const kripto_desc_ae*d,unsigned r,const void*k,unsigned n,const void*i,unsigned in_,unsigned t){ return (kripto_ae*)make2(F("kripto_ae_create"),d,r,k,n,i,in_,1,t); }
kripto_ae*kripto_ae_recreate(kripto_ae*d,unsigned r,const void*k,unsigned n,const void*i,unsigned in_,unsigned t){ return (kripto_ae*)make2(F("kripto_ae_recreate"),d,r,k,n,i,in_,1,t); }
void kripto_ae_encrypt(kripto_ae*s,const void*i,void*o,size_t n){ crypt(F("kripto_ae_encrypt"),s,i,o,n,true); }
void kripto_ae_decrypt(kripto_ae*s,const void*i,void*o,size_t n){ crypt(F("kripto_ae_decrypt"),s,i,o,n,true); }
void kripto_ae_header(kripto_ae*s,const void*i,size_t n){ feed(F("kripto_ae_header"),s,i,n); }
void kripto_ae_tag(kripto_ae*s,void*o,unsigned n){ give(F("kripto_ae_tag"),s,o,n); }
int kripto_ae_verify(kripto_ae*s,const void*t,unsigned n){ return check(F("kripto_ae_verify"),s,t,n); }
size_t kripto_pkcs7_add(void*b,size_t n,unsigned pad,size_t max){ SC; O q(b,max); size_t v=cl(F("kripto_pkcs7_add"),{P(q.a),P(n),U(pad),P(max)}); q.back(); return v; }
size_t kripto_pkcs7_rem(void*b,size_t n){ SC; O q(b,n); size_t v=cl(F("kripto_pkcs7_rem"),{P(q.a),P(n)}); q.back(); return v; }
int kripto_pbkdf2(const kripto_desc_mac*d,unsigned r,unsigned it,const void*p,unsigned pn,const void*s,unsigned sn,void*o,size_t n){ SC; uint32_t a=in(p,pn),b=in(s,sn); O q(o,n); int v=(int)cl(F("kripto_pbkdf2"),{P(ptr(d)),U(r),U(it),P(a),U(pn),P(b),U(sn),P(q.a),P(n)}); same(p,pn,a); same(s,sn,b); q.back(); return v; }
int kripto_scrypt(const kripto_desc_mac*d,unsigned r,uint64_t N,uint32_t rr,uint32_t pp,const void*p,unsigned pn,const void*s,unsigned sn,void*o,size_t n){ SC; uint32_t a=in(p,pn),b=in(s,sn); O q(o,n); int v=(int)cl(F("kripto_scrypt"),{P(ptr(d)),U(r),W(N),U(rr),U(pp),P(a),U(pn),P(b),U(sn),P(q.a),P(n)}); same(p,pn,a); same(s,sn,b); q.back(); return v; }
void kripto_memory_wipe(void*b,size_t n){ SC; O q(b,n); cl(F("kripto_memory_wipe"),{P(q.a),P(n)}); q.back(); }
unsigned char kripto_memory_equals(const void*x,const void*y,size_t n){ SC; uint32_t a=in(x,n),b=in(y,n); unsigned char v=(unsigned char)cl(F("kripto_memory_equals"),{P(a),P(b),P(n)}); same(x,n,a); same(y,n,b); return v; }
// the source of randomness is the host's business
kripto_random*kripto_random_create(void){ return (kripto_random*)&g; } size_t kripto_random_gen(kripto_random*,void*b,size_t n){ memset(b,0,n); return n; } void kripto_random_destroy(kripto_random*){} int kripto_random_test(kripto_random*){ return 0; }
#define FACT(R,N,T) R*N(const T*x){ return (R*)hst(cl(F(#N),{P(ptr(x))})); }
FACT(kripto_desc_stream,kripto_stream_ecb,kripto_desc_block) FACT(kripto_desc_stream,kripto_stream_cbc,kripto_desc_block) FACT(kripto_desc_stream,kripto_stream_cfb,kripto_desc_block) FACT(kripto_desc_stream,kripto_stream_ofb,kripto_desc_block) FACT(kripto_desc_stream,kripto_stream_ctr,kripto_desc_block)
FACT(kripto_desc_mac,kripto_mac_hmac,kripto_desc_hash) FACT(kripto_desc_mac,kripto_mac_omac,kripto_desc_block) FACT(kripto_desc_mac,kripto_mac_xcbc,kripto_desc_block) FACT(kripto_desc_ae,kripto_ae_eax,kripto_desc_block)
kripto_desc_ae*kripto_ae_eax2(const kripto_desc_stream*s,const kripto_desc_mac*m){ return (kripto_desc_ae*)hst(cl(F("kripto_ae_eax2"),{P(ptr(s)),P(ptr(m))})); }
kripto_desc_block*kripto_block_gost(const unsigned char(*s)[16]){ SC; uint32_t a=in(s,128); void*d=hst(cl(F("kripto_block_gost"),{P(a)})); same(s,128,a); return (kripto_desc_block*)d; }
kripto_desc_block*kripto_block_gost_cbr(void){ return (kripto_desc_block*)hst(cl(F("kripto_block_gost_cbr"),{})); }
kripto_desc_block*kripto_block_gost_r34_12_2015(void){ return (kripto_desc_block*)hst(cl(F("kripto_block_gost_r34_12_2015"),{})); }
}
kripto_desc_block* toy_desc(unsigned bs){ return (kripto_desc_block*)hst(cl(F("_Z8toy_descj"),{U(bs)})); }
