// C24: the built-in random generator (the build without an operating system interface)
#include "engine.h"
#include "hook.h"
#include "ownstack.h"
#include "../ref/ref.h"
#include <algorithm>
#include <memory>
#include <sys/mman.h>
extern "C" {
#include <kripto/mac.h>
#include <kripto/random.h>
#include <kripto/scrypt.h>
void* vx_hooks(void);
// the same source with its default limits, optimised
kripto_random* dflt_create(void); size_t dflt_gen(kripto_random*,void*,size_t); void dflt_destroy(kripto_random*); int dflt_test(kripto_random*);
}
struct Api { const char*name; kripto_random*(*create)(void); size_t(*gen)(kripto_random*,void*,size_t); void(*destroy)(kripto_random*); int(*test)(kripto_random*); uint64_t limit; };
static const Api api[]={{"limit of 3000 bytes",kripto_random_create,kripto_random_gen,kripto_random_destroy,kripto_random_test,3000},{"default limit",dflt_create,dflt_gen,dflt_destroy,dflt_test,5242880}};
// the world the generator sees: clocks and key derivation
static struct World { int64_t time,clock; uint64_t ncalls,failcall; bool real; std::vector<Bytes> keys,pass; char err[100]; } W;
extern "C" int64_t vp_time(int64_t*t){ if(t) *t=W.time; return W.time; }
extern "C" int64_t vp_clock(void){ return W.clock; }
extern "C" __attribute__((noinline)) int vp_kdf(const kripto_desc_mac*mac,unsigned rounds,uint64_t n,uint32_t r,uint32_t p,const void*pass,unsigned pl,const void*salt,unsigned sl,void*out,size_t ol){ W.ncalls++; if(unsigned m=kripto_mac_maxtag(mac);(!m||m>4096)&&!W.err[0]) strcpy(W.err,"key derivation with a MAC that is not there"); if(W.failcall&&W.ncalls==W.failcall) return -1;
  W.pass.emplace_back(); W.pass.back().resize(pl); memcpy(W.pass.back().data(),pass,pl); if(W.real){ int rc=kripto_scrypt(mac,rounds,n,r,p,pass,pl,salt,sl,out,ol); W.keys.emplace_back(); W.keys.back().resize(ol); memcpy(W.keys.back().data(),out,ol); return rc; }
  uint64_t h=n*31+r*7+p; for(unsigned i=0;i<pl;i++) h=(h^((const uint8_t*)pass)[i])*0x100000001b3ull+(h>>47); for(unsigned i=0;i<sl;i++) h=(h^((const uint8_t*)salt)[i])*0x100000001b3ull+(h>>47);
  W.keys.emplace_back(); W.keys.back().resize(ol); uint8_t*k=W.keys.back().data(); for(size_t i=0;i<ol;i++){ if(i%8==0){ h+=0x9e3779b97f4a7c15ull; h=(h^(h>>30))*0xbf58476d1ce4e5b9ull; h^=h>>27; } k[i]=(uint8_t)(h>>(8*(i%8))); } memcpy(out,k,ol); return 0; }
static const size_t SS=1u<<17; static uint8_t*g_stk; static const uint64_t PAT=0xC3C3C3C3C3C3C3C3ull;
static Hook* hook(){ Hook*h=(Hook*)vx_hooks(); if(!h->base){ h->cap=8u<<20; h->base=(uint8_t*)mmap(0,h->cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); h->rel_cap=8u<<20; h->rel=(uint8_t*)mmap(0,h->rel_cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); g_stk=(uint8_t*)mmap(0,SS,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); memset(g_stk,0xC3,SS); } return h; }
static bool has(const uint8_t*p,size_t n,const Bytes&k){ if(k.size()<16||n<16) return false; for(size_t o=0;o+16<=k.size();o++) for(const uint8_t*q=p;(q=(const uint8_t*)memmem(q,n-(q-p),&k[o],16));q++) return true; return false; }
// a call on a stack of our own, which is searched afterwards for seeds
static uint64_t call(void*fn,uint64_t a,uint64_t b,uint64_t c,const char*what,bool look){ uint64_t v[11]={a,b,c}; uint64_t r=vp_on_stack(g_stk+SS,fn,v); size_t lo=0; while(lo<SS&&*(uint64_t*)(g_stk+lo)==PAT) lo+=8; Bytes s(g_stk+lo,g_stk+SS); memset(g_stk+lo,0xC3,SS-lo);
  if(look&&s.size()>64){ for(size_t i=W.keys.size()>4?W.keys.size()-4:0;i<W.keys.size();i++) if(auto&k=W.keys[i];has(s.data(),s.size()-64,k)) fail("%s left a derived key on the stack",what); for(size_t i=W.pass.size()>2?W.pass.size()-2:0;i<W.pass.size();i++){ auto&k=W.pass[i]; Bytes e(k.begin(),k.begin()+std::min<size_t>(16,k.size())); if(has(s.data(),s.size()-64,e)) fail("%s left the gathered entropy on the stack",what); } } return r; }
static Bytes stream(const Bytes&key,const Bytes&iv,uint64_t at,size_t n){ uint64_t f=at/64; Bytes k=ref::chacha_ks(20,key,iv,n+at%64,f); return Bytes(k.begin()+at%64,k.end()); }
struct State { Bytes key,iv; uint64_t at; bool operator==(const State&o)const{ return key==o.key&&iv==o.iv&&at==o.at; } };
struct Obj { kripto_random*r=0; std::vector<State> st; uint64_t used=0; int64_t seeded=0; unsigned life=0; }; // st: where the stream may be (a failed request may have taken 8 bytes)
static void released(Hook*h){ for(size_t i=0;i+16<=h->rel_len;){ uint64_t d[2]; memcpy(d,h->rel+i,16); for(auto&k:W.keys) if(has(h->rel+i+16,d[1],k)) fail("a released block of %llu bytes holds a derived key",(unsigned long long)d[1]); i+=16+d[1]; } h->rel_len=0; if(h->err[0]) fail("%s",h->err); if(W.err[0]) fail("%s",W.err); }
static void world(Src&s){ W.keys.clear(); W.pass.clear(); W.err[0]=0; W.ncalls=W.failcall=0; W.real=false; W.time=1+(int64_t)s.draw(1ull<<40)+(7ll<<41); W.clock=(int64_t)s.draw(1ull<<61)|(1ll<<61); }
static void play(Src&s,Ctx&x,const Api&A,unsigned nops,bool stuck){ Hook*h=hook(); h->reset(); h->arena=1; struct Off { Hook*h; ~Off(){ h->arena=0; } } off{h}; world(s); bool look=&A==api; Obj o[2]; x.say("%s%s;",A.name,stuck?", clocks stand still":""); unsigned seeds=0,life=0; std::vector<std::pair<unsigned,Bytes>> all;
  for(unsigned i=0;i<nops;i++){ Obj&q=o[s.draw(5)==4]; unsigned k=s.draw(16); unsigned fa=s.draw(5)==4?1+s.draw(3):0; unsigned fi=fa?1+s.draw(6):0; if(fa==2) fi=1+fi%2;
    if(!stuck) switch(s.draw(10)){ case 0: case 1: W.clock+=1+s.draw(100000); break; case 2: { int64_t d=(int64_t)s.draw(5)-2; if(q.r&&W.time<=q.seeded+300+d) W.time=q.seeded+300+d; break; } case 3: W.time+=s.draw(700); W.clock+=s.draw(1u<<30); break; case 4: W.time-=s.draw(100); break; default: break; }
    W.ncalls=0; W.failcall=0; size_t k0=W.keys.size(); h->count=0; h->nfail=0; h->failed=0; h->fail_from=0; if(fa==1){ h->fail[0]=fi; h->nfail=1; } else if(fa==2) W.failcall=fi; else if(fa==3) h->fail_from=fi; int64_t live=h->live;
    auto injected=[&]{ return h->failed>0||(W.failcall&&W.ncalls>=W.failcall); };
    if(!q.r){ x.say(" %screate%s",&q==o+1?"B ":"",fa?" (failing)":""); q.r=(kripto_random*)call((void*)A.create,0,0,0,"kripto_random_create",look); bool inj=injected(); h->nfail=0; h->fail_from=0; if(inj){ x.label("failure in create"); if(q.r) fail("an object was created although %s failed",W.failcall?"the key derivation":"an allocation"); if(h->live!=live) fail("%lld blocks remain after a failed create",(long long)(h->live-live)); continue; } if(!q.r) fail("kripto_random_create failed"); if(k0==W.keys.size()) fail("create derived no key"); q.st={State{W.keys.back(),Bytes(),0}}; q.used=0; q.seeded=W.time; q.life=++life; seeds++; x.label("seeded"); }
    else if(k==15){ x.say(" %sdestroy",&q==o+1?"B ":""); h->nfail=0; h->fail_from=0; call((void*)A.destroy,(uint64_t)q.r,0,0,"kripto_random_destroy",look); q.r=0; }
    else { bool test=k==14; size_t n; switch(s.draw(8)){ case 0: n=0; break; case 1: n=1+s.draw(64); break; case 2: case 3: { uint64_t left=A.limit>q.used?A.limit-q.used:0; n=left+s.draw(3); if(n) n--; break; } case 4: n=A.limit>10000?s.draw(300000):A.limit*(1+s.draw(3))+s.draw(5); break; default: n=s.draw(900); } if(test) n=4096; bool due=q.used+n>A.limit||W.time-q.seeded>300; x.say(" %s%s%zu%s%s",&q==o+1?"B ":"",test?"test ":"",n,due?" [due]":"",fa==1?" (allocation fails)":fa==2?" (derivation fails)":fa?" (allocations fail)":"");
      Guarded g(n,s.draw(16),0xE1); size_t got; if(test){ call((void*)A.test,(uint64_t)q.r,0,0,"kripto_random_test",look); got=n; } else { got=call((void*)A.gen,(uint64_t)q.r,(uint64_t)g.p(),n,"kripto_random_gen",look); g.check("kripto_random_gen"); } bool inj=injected(); h->nfail=0; h->fail_from=0;
      if(inj){ x.label("failure when reseeding"); if(got&&!test) fail("%zu bytes were returned although %s failed",got,W.failcall?"the key derivation":"an allocation"); if(h->live!=live) fail("%lld blocks remain after a failed request",(long long)(h->live-live)); if(g.get()!=Bytes(n,0xE1)) fail("a failed request wrote output"); std::vector<State> a=q.st; for(auto c:a){ c.at+=8; if(std::find(q.st.begin(),q.st.end(),c)==q.st.end()) q.st.push_back(c); } q.used+=n; continue; }
      if(got!=n) fail("%zu bytes requested, %zu returned",n,got); bool re=W.keys.size()>k0; if(due&&!re) fail("%llu bytes since the last seeding and %lld seconds later the generator was not seeded again",(unsigned long long)(q.used+n),(long long)(W.time-q.seeded));
      if(re&&q.used+n<=A.limit/2&&W.time>=q.seeded&&W.time-q.seeded<=150) fail("seeded again %llu bytes and %lld seconds after the last seeding",(unsigned long long)(q.used+n),(long long)(W.time-q.seeded));
      std::vector<State> cand=q.st; if(re){ seeds++; x.label(W.time-q.seeded>300?"reseeded by time":"reseeded by amount"); for(auto&c:cand) c=State{W.keys.back(),stream(c.key,c.iv,c.at,8),0}; q.used=0; q.seeded=W.time; } else q.used+=n;
      Bytes out=g.get(); q.st.clear(); for(auto c:cand) if(test||stream(c.key,c.iv,c.at,n)==out){ c.at+=n; q.st.push_back(c); if(n>=16&&!test) break; }
      if(q.st.empty()) eq(out,stream(cand[0].key,cand[0].iv,cand[0].at,n),re?"output after reseeding (ChaCha under the new key, started with the next 8 bytes of the old stream)":"output (ChaCha under the derived key)");
      if(!test&&n>=16){ for(size_t j=0;j+16<=n&&j<64;j+=16) all.emplace_back(q.life,Bytes(out.begin()+j,out.begin()+j+16)); if(re||n>64) x.nt(); } }
    released(h); }
  for(auto&q:o) if(q.r) call((void*)A.destroy,(uint64_t)q.r,0,0,"kripto_random_destroy",look); released(h); if(h->live) fail("%lld blocks were never released",(long long)h->live); if(seeds>1) x.label("several seeds");
  // an object never repeats its output, even when all the entropy repeats itself
  std::sort(all.begin(),all.end()); for(size_t i=1;i<all.size();i++) if(all[i]==all[i-1]) fail("16 bytes of output occurred twice"); }
// the seed depends on the clocks
static void depends(Src&s,Ctx&x){ Hook*h=hook(); const Api&A=api[s.draw(2)]; world(s); int64_t t=W.time,c=W.clock,t2=t+1+s.draw(100000),c2=c+1+s.draw(1u<<30); unsigned how=s.draw(3); x.say("%s: created twice, %s differing",A.name,how==0?"only the time":how==1?"only the clock":"nothing"); Bytes out[3]; uint64_t amount=A.limit+1; bool re=s.draw(2);
  for(int k=0;k<3;k++){ h->reset(); h->arena=1; W.keys.clear(); W.pass.clear(); W.err[0]=0; W.time=t; W.clock=c; if(!re&&k==2){ if(how==0) W.time=t2; if(how==1) W.clock=c2; } kripto_random*r=(kripto_random*)call((void*)A.create,0,0,0,"create",false); if(!r){ h->arena=0; fail("create"); } if(re){ if(k==2){ if(how==0) W.time=t2; if(how==1) W.clock=c2; } Bytes w(amount); call((void*)A.gen,(uint64_t)r,(uint64_t)w.data(),amount,"gen",false); } out[k].assign(64,0); size_t g=call((void*)A.gen,(uint64_t)r,(uint64_t)out[k].data(),64,"gen",false); call((void*)A.destroy,(uint64_t)r,0,0,"destroy",false); h->arena=0; if(g!=64) fail("gen"); }
  if(out[0]!=out[1]){ x.label("other entropy in use"); return; } x.label(re?"entropy at reseeding":"entropy at creation"); x.nt(); if(how<2&&out[0]==out[2]) fail("the output does not depend on %s %s",how?"the processor clock":"the time",re?"at reseeding":"at creation"); }
static void c24(Src&s,Ctx&x){ unsigned k=s.strat(160); if(k%40==39) return depends(s,x); bool big=k==38; play(s,x,api[big],big?6+s.draw(8):1+s.draw(30),s.draw(6)==5); }
static void c24fix(uint64_t i,Ctx&x){ if(i==0){ Hook*h=hook(); h->reset(); Src s(x.seed,1,0,0); world(s); W.real=true; x.say("with the real key derivation"); kripto_random*r=kripto_random_create(); if(!r){ x.label("no memory"); return; } Bytes o(200); if(kripto_random_gen(r,o.data(),200)!=200) fail("gen"); eq(o,stream(W.keys.back(),Bytes(),0,200),"output"); if(x.thorough){ W.time+=301; Bytes p(200); if(kripto_random_gen(r,p.data(),200)!=200){ x.label("no memory"); } else eq(p,stream(W.keys.back(),stream(W.keys[1],Bytes(),200,8),0,200),"output after reseeding"); } kripto_random_destroy(r); if(h->live) fail("%lld blocks were never released",(long long)h->live); x.label("real key derivation"); x.nt(); return; }
  i--; // every allocation and every derivation failing, at creation and at reseeding
  Hook*h=hook(); const Api&A=api[i&1]; i>>=1; bool re=i&1; i>>=1; unsigned mode=i%3,f=1+i/3; Src s(x.seed+i,2,0,0); world(s); h->reset(); h->arena=1; struct Off { Hook*h; ~Off(){ h->arena=0; } } off{h}; x.say("%s, %s %u failing at %s",A.name,mode==0?"allocation":mode==1?"derivation":"every allocation from",f,re?"reseeding":"creation"); kripto_random*r=0; if(re){ r=A.create(); if(!r) fail("create"); W.time+=301; } W.ncalls=0; h->count=0; h->failed=0; if(mode==0){ h->fail[0]=f; h->nfail=1; } else if(mode==1) W.failcall=f; else h->fail_from=f; int64_t live=h->live; Bytes o(64,0xE1); size_t got=0; kripto_random*q=r; if(re) got=call((void*)A.gen,(uint64_t)r,(uint64_t)o.data(),64,"kripto_random_gen",!(i&1)&&&A==api); else q=(kripto_random*)call((void*)A.create,0,0,0,"kripto_random_create",&A==api);
  bool inj=h->failed||(W.failcall&&W.ncalls>=W.failcall); h->nfail=0; h->fail_from=0; W.failcall=0; if(inj){ x.nt(); x.label("injected failure"); if(re?got!=0:q!=0) fail("success was reported"); if(h->live!=live) fail("%lld blocks remain",(long long)(h->live-live)); } else { x.label("not reached"); if(re?got!=64:!q) fail("failure was reported"); }
  if(!q) q=A.create(); if(!q) fail("create"); if(A.gen(q,o.data(),64)!=64) fail("the generator did not recover"); A.destroy(q); released(h); if(h->live) fail("%lld blocks were never released",(long long)h->live); }
static Reg r24({"C24","the generator used in builds without an operating system interface, with scripted clocks and a recording stand-in for scrypt: one or two objects, sequences of requests (sizes around the reseeding limit), self-tests, time steps around the reseeding age, failing allocations and failing derivations; every byte compared with a reference ChaCha under the derived keys, every call's stack and every released block searched for keys and entropy, every block accounted for; dependence of the output on both clocks. Systematic part: the real key derivation; every allocation and derivation failing at creation and at reseeding. Non-trivial: cases with a request of more than 64 bytes or a reseeding.",24000,600000,c24,1+2*2*3*6,c24fix,120,"scrypt itself is C12; the entropy of the clocks is not judged"});
