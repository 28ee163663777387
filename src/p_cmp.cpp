// C17: exactness of comparison, verification and wiping; control flow observed by compiler-inserted
// recording (variants *_path) and, for a small systematic part, by single-stepping the processor
#include "mgen.h"
#include "variants.h"
#include "big.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <ucontext.h>
struct Trace { uint64_t h,n,lh,ln; bool operator==(const Trace&o)const{ return h==o.h&&n==o.n&&lh==o.lh&&ln==o.ln; } };
static volatile uint64_t t_h,t_n,t_lh,t_ln; static uint64_t t_lo,t_hi;
static void on_trap(int,siginfo_t*,void*u){ uint64_t ip=((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP]; t_h=(t_h^ip)*1099511628211ull; t_n=t_n+1; if(ip>=t_lo&&ip<t_hi){ t_lh=(t_lh^ip)*1099511628211ull; t_ln=t_ln+1; } }
struct Fns { void*h; unsigned char (*equals)(const void*,const void*,size_t); void (*wipe)(void*,size_t); int (*mverify)(void*,const void*,unsigned); int (*averify)(void*,const void*,unsigned); void*(*obj)(Exec*,unsigned); uint64_t lo,hi; void (*tb)(); void (*te)(uint64_t*,uint64_t*); };
static Fns& fns(Variant&v){ static std::map<void*,Fns> m; auto it=m.find(v.h); if(it!=m.end()) return it->second; Fns f; f.h=v.h; *(void**)&f.equals=dlsym(v.h,"kripto_memory_equals"); *(void**)&f.wipe=dlsym(v.h,"kripto_memory_wipe"); *(void**)&f.mverify=dlsym(v.h,"kripto_mac_verify"); *(void**)&f.averify=dlsym(v.h,"kripto_ae_verify"); *(void**)&f.obj=dlsym(v.h,"vx_obj"); *(void**)&f.tb=dlsym(v.h,"vt_begin"); *(void**)&f.te=dlsym(v.h,"vt_end"); if(!f.equals||!f.wipe||!f.mverify||!f.averify||!f.obj) fail("harness: symbol missing");
  struct link_map*l; dlinfo(v.h,RTLD_DI_LINKMAP,&l); struct A { uint64_t base,lo,hi; } a={l->l_addr,0,0}; dl_iterate_phdr([](struct dl_phdr_info*i,size_t,void*p){ A*a=(A*)p; if(i->dlpi_addr!=a->base) return 0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD&&(i->dlpi_phdr[k].p_flags&PF_X)){ a->lo=a->base+i->dlpi_phdr[k].p_vaddr; a->hi=a->lo+i->dlpi_phdr[k].p_memsz; } return 0; },&a); f.lo=a.lo; f.hi=a.hi; 
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_trap; sa.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&sa,0); return m[v.h]=f; }
// calls f(a,b,n) with the trap flag set
__attribute__((noinline)) static long stepped(void*f,const void*a,const void*b,size_t n,Trace&t){ long r; t_h=1469598103934665603ull; t_n=0; t_lh=t_h; t_ln=0;
  __asm__ volatile("subq $128,%%rsp\n\tmovq %%rsp,%%rbx\n\tandq $-16,%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tcallq *%%rcx\n\tpushfq\n\tandq $-257,(%%rsp)\n\tpopfq\n\tmovq %%rbx,%%rsp\n\taddq $128,%%rsp" : "=a"(r) : "c"(f),"D"(a),"S"(b),"d"(n) : "rbx","r8","r9","r10","r11","memory","cc","xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15");
  t.h=t_h; t.n=t_n; t.lh=t_lh; t.ln=t_ln; if(!t.n) fail("harness: single-stepping does not work here"); return r; }
static long traced(Fns&q,void*f,const void*a,const void*b,size_t n,Trace&t){ if(!q.tb) return stepped(f,a,b,n,t); q.tb(); long r=((long(*)(const void*,const void*,size_t))f)(a,b,n); q.te(&t.h,&t.n); t.lh=t.h; t.ln=t.n; return r; }
static Variant& pick_variant(Src&s,bool path){ auto&vs=variants(); std::vector<Variant*> c; for(auto&v:vs) if(!path||fns(v).tb) c.push_back(&v); if(c.empty()) fail("harness: no such variant"); return *c[s.draw(c.size())]; }
static Bytes differ(Src&s,const Bytes&b,std::string&d){ Bytes c=b; char t[60]; unsigned k=s.draw(8),n=b.size(); if(k==7){ for(auto&x:c) x=~x; d="all bytes"; return c; } unsigned m=k<4?1:k<6?2:1+s.draw(n); d=""; uint8_t last=0; size_t lp=0; for(unsigned i=0;i<m;i++){ size_t at=s.draw(n); uint8_t x=s.draw(3)?1<<s.draw(8):1+s.draw(255); if(i&&s.draw(2)) x=last; if(i&&at==lp) continue; lp=at; last=x; c[at]^=x; snprintf(t,60," byte %zu^%02x",at,x); if(d.size()<60) d+=t; } if(c==b){ size_t at=s.draw(n); c[at]^=1; } return c; }
// all traces of one class must be equal
struct Class { bool have=false; Trace t; std::string what; bool lib=false; void add(const Trace&x,const std::string&w,const char*fn,Ctx&c){ if(!have){ have=true; t=x; what=w; return; } bool same=lib?x.lh==t.lh&&x.ln==t.ln:x==t; if(!same) fail("%s takes another path for %s (%llu steps) than for %s (%llu)",fn,w.c_str(),(unsigned long long)x.n,what.c_str(),(unsigned long long)t.n); c.label("paths compared"); } };
static void eqcase(Src&s,Ctx&x,size_t n,bool tr){ Variant&v=pick_variant(s,tr); Fns&f=fns(v); t_lo=f.lo; t_hi=f.hi; if(!f.tb) tr=false; Bytes a=s.bytes(n); unsigned ma=s.draw(16),mb=s.draw(16); Guarded A(a,ma),B(a,mb); x.say("%s equals len=%zu alignment %u/%u",v.name.c_str(),n,ma,mb); x.label(v.name); x.nt();
  if(!f.equals(A.p(),B.p(),n)) fail("equal buffers compare unequal"); if(n&&!f.equals(A.p(),A.p(),n)) fail("a buffer compares unequal to itself");
  Class cu,ce; Trace t,t2; if(tr){ traced(f,(void*)f.equals,A.p(),B.p(),n,t); if(!(traced(f,(void*)f.equals,A.p(),B.p(),n,t)&0xff)) fail("equal buffers compare unequal"); traced(f,(void*)f.equals,A.p(),B.p(),n,t2); ce.lib=cu.lib=!(t==t2); ce.add(t,"equal buffers","kripto_memory_equals",x); }
  if(!n) return; unsigned m=2+s.draw(5); for(unsigned i=0;i<m;i++){ std::string d; Bytes b=i?differ(s,a,d):a; if(!i){ size_t at=s.draw(n); b[at]^=1<<s.draw(8); d=" byte "+std::to_string(at); } memcpy(B.p(),b.data(),n); std::string w="a difference in"+d; if(f.equals(A.p(),B.p(),n)) fail("%s of %zu is not noticed",w.c_str(),n); if(f.equals(B.p(),A.p(),n)) fail("%s of %zu is not noticed (arguments swapped)",w.c_str(),n);
    if(tr){ if(traced(f,(void*)f.equals,A.p(),B.p(),n,t)&0xff) fail("%s of %zu is not noticed",w.c_str(),n); cu.add(t,w,"kripto_memory_equals",x); } }
  // other contents, equal again
  if(tr){ Bytes c=s.random(n); memcpy(A.p(),c.data(),n); memcpy(B.p(),c.data(),n); traced(f,(void*)f.equals,A.p(),B.p(),n,t); ce.add(t,"other equal buffers","kripto_memory_equals",x); c[s.draw(n)]^=0x40; memcpy(B.p(),c.data(),n); traced(f,(void*)f.equals,A.p(),B.p(),n,t); cu.add(t,"other differing buffers","kripto_memory_equals",x); }
  A.check("first buffer"); B.check("second buffer"); }
static void wipecase(Src&s,Ctx&x,size_t n){ auto&vs=variants(); Variant&v=vs[s.draw(vs.size())]; Fns&f=fns(v); Bytes a=s.bytes(n); unsigned m=s.draw(16); Guarded A(a,m); x.say("%s wipe len=%zu alignment %u",v.name.c_str(),n,m); f.wipe(A.p(),n); A.check("wiped buffer"); eq(A.get(),Bytes(n),"wiped buffer"); x.label("wipe"); x.nt(); }
static void vercase(Src&s,Ctx&x,GCfg&g,unsigned maxm,bool step=false){ Variant&v=step?variants()[s.draw(variants().size()-3)]:pick_variant(s,true); Fns&f=fns(v); t_lo=f.lo; t_hi=f.hi; bool ae=g.id.fam==5; Prog p; Op c; c.k=CREATE; c.cfg=g.id; unsigned kl=pick_keylen(s,g.maxkey,g.maxkey>=600?80:60); if(kl<g.minkey) kl=g.minkey; c.a=s.bytes(kl); c.n=s.draw(2)?g.maxout:1+s.draw(g.maxout); if(ae) c.b=s.bytes(s.draw(std::min(g.maxiv,16u)+1)); unsigned tl=c.n,vl=s.draw(4)?tl:1+s.draw(tl); p.push_back(c); Op in; in.k=ae?ENC:MIN; in.a=s.bytes(s.draw(maxm+1)/g.multof*g.multof); p.push_back(in); Op tg; tg.k=ae?ATAG:MTAG; tg.n=vl; p.push_back(tg); Op rc=c; rc.k=RECREATE; p.push_back(rc);
  x.say("%s %s key=%u msg=%zu tag=%u compared=%u",v.name.c_str(),g.name.c_str(),kl,in.a.size(),tl,vl); x.label(ae?"ae_verify":"mac_verify"); x.label(v.name); Exec*e=v.create(&p,0); auto op=[&](size_t i){ int r=v.op(e,i); if(r) fail("operation %s ended with %d %s",op_str(p[i]).c_str(),r,v.err(e)); }; op(0); op(1); size_t at=v.out(e)->size(); op(2); Bytes tag(v.out(e)->begin()+at,v.out(e)->end()); void*fn=ae?(void*)f.averify:(void*)f.mverify; const char*nm=ae?"kripto_ae_verify":"kripto_mac_verify"; Guarded T(tag,s.draw(16));
  auto ver=[&](const Bytes&b,Trace&t){ op(3); op(1); memcpy(T.p(),b.data(),b.size()); int r=(int)traced(f,fn,f.obj(e,0),T.p(),vl,t); T.check("tag buffer"); eq(T.get(),b,"tag buffer after verify"); return r; };
  Trace t,t2; ver(tag,t); if(!ver(tag,t)) fail("the correct tag is rejected"); ver(tag,t2); Class cu; cu.lib=!(t==t2); if(cu.lib) x.label("only library code compared"); unsigned m=3+s.draw(3); for(unsigned i=0;i<m;i++){ std::string d; Bytes b=differ(s,tag,d); if(i==0){ b=tag; b[0]^=1<<s.draw(8); d=" byte 0"; } if(i==1){ b=tag; b[vl-1]^=1<<s.draw(8); d=" byte "+std::to_string(vl-1); } std::string w="a difference in"+d; if(ver(b,t)) fail("%s is accepted",w.c_str()); cu.add(t,w,nm,x); }
  v.finish(e); x.nt(); }
static void c17(Src&s,Ctx&x){ unsigned k=s.draw(16); if(k<9) eqcase(s,x,s.draw(6)==5?s.draw(1500):s.len(80,8),true); else if(k<12) eqcase(s,x,s.draw(4000),false); else if(k<15) wipecase(s,x,s.draw(6)==5?s.draw(20000):s.len(300,16)); else { GCfg g; do { g.~GCfg(); new(&g) GCfg(); cfg_pick(s,g,s.draw(2)?5:3); } while(0); vercase(s,x,g,40); } }
static void c17fix(uint64_t i,Ctx&x){ x.nt(); auto&vs=variants(); if(i<160){ // every length, every single position, every bit; every pair of positions at small lengths
    size_t n=i; x.say("every difference at length %zu",n); for(auto&v:vs){ Fns&f=fns(v); bool path=f.tb; Guarded A(n,i&7),B(n,(i>>3)&7); for(size_t j=0;j<n;j++) A.p()[j]=B.p()[j]=j*29+n; if(!f.equals(A.p(),B.p(),n)) fail("%s: equal buffers compare unequal",v.name.c_str()); for(size_t j=0;j<n;j++) for(int b=0;b<8;b++){ B.p()[j]^=1<<b; if(f.equals(A.p(),B.p(),n)) fail("%s: byte %zu bit %d not noticed",v.name.c_str(),j,b); B.p()[j]^=1<<b; } if(n<=(path?20:80)) for(size_t j=0;j<n;j++) for(size_t k=j+1;k<n;k++) for(unsigned d:{1u,0x80u,0xffu,0x55u}){ B.p()[j]^=d; B.p()[k]^=d; if(f.equals(A.p(),B.p(),n)) fail("%s: the same difference in bytes %zu and %zu not noticed",v.name.c_str(),j,k); B.p()[j]^=d; B.p()[k]+=0; B.p()[k]^=d; B.p()[j]+=d; B.p()[k]-=d; if(f.equals(A.p(),B.p(),n)) fail("%s: opposite differences in bytes %zu and %zu not noticed",v.name.c_str(),j,k); B.p()[j]-=d; B.p()[k]+=d; }
      if((f.tb?n<=159:n<=20)&&n){ t_lo=f.lo; t_hi=f.hi; Class c; Trace t; for(size_t j=0;j<n;j++){ B.p()[j]^=1<<(j&7); traced(f,(void*)f.equals,A.p(),B.p(),n,t); B.p()[j]^=1<<(j&7); c.add(t,"a difference in byte "+std::to_string(j),"kripto_memory_equals",x); } }
      { size_t L=i<40?256*(i+1):i<44?65536*(i-39):0; if(L) for(unsigned d:{1u,2u,0x40u,0x80u,0xffu}){ Bytes p(L,i),q(L,i^d); if(f.equals(p.data(),q.data(),L)) fail("%s: the difference %02x in each of %zu bytes is not noticed",v.name.c_str(),d,L); for(size_t h:{(size_t)128,(size_t)256}){ q=p; for(size_t j=0;j<h;j++) q[j*L/h]=p[j]+d; if(f.equals(p.data(),q.data(),L)) fail("%s: the difference %02x in %zu of %zu bytes is not noticed",v.name.c_str(),d,h,L); } } }
      for(unsigned m=0;m<16;m++){ Guarded W(n,m,0x99); memset(W.p(),0xee,n); f.wipe(W.p(),n); W.check("wiped buffer"); eq(W.get(),Bytes(n),"wiped buffer"); } } x.label("exhaustive length"); return; }
  i-=160; if(i<4){ Variant&v=vs[0]; Fns&f=fns(v); if(i<2){ const uint8_t*b=big_region(); if(!b) return; size_t n=(1ull<<32)+(i?5:0); x.say("equals over %zu bytes",n); if(i==0){ if(!f.equals(b,b,n)) fail("equal buffers compare unequal"); } else { uint8_t*w=big_scratch(); if(!w) return; memcpy(w,b,BIG_UNIT); // same content; then shift the start by one unit and a byte so only the end differs
        size_t m=(1ull<<32)+1; w[0]=b[0]^1; if(f.equals(b+1,w+1,m)!=0) fail("a difference is not noticed at length %zu",m); } x.label("longer than 2^32"); return; }
    uint8_t*w=big_scratch(); if(!w) return; size_t n=i==2?(1ull<<32)+3:(1ull<<32)-1; x.say("wipe of %zu bytes",n); size_t at=(n-1)%BIG_UNIT; memset(w,0x77,BIG_UNIT); f.wipe(w,n); for(size_t j=0;j<BIG_UNIT;j++) if(w[j]) fail("byte %zu is not zero",j); x.label("longer than 2^32"); 
    return; }
  i-=4; GCfg g; Src s(x.seed*1000003+17,i,0,0); if(i<mac_variants()) cfg_fixed(g,n_blocks+n_hashes+i); else if((i-=mac_variants())<n_blocks) cfg_fixed(g,n_blocks+n_hashes+mac_variants()+stream_variants()+i); else cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); x.label("every MAC and AE"); vercase(s,x,g,20,i%40==7&&g.id.fam!=5); }
static Reg r17({"C17","comparison, wiping and verification in eight builds of the library; contents, lengths, alignments, number, positions and values of the differing bytes drawn; result compared with the definition, guard bytes around the buffers. In the three builds named _path the sequence of executed basic blocks is recorded (compiler-inserted calls; C library comparison functions replaced by recorders of their stopping position) and required to be the same for all differing contents, and for all equal contents; a small systematic part does the same on uninstrumented builds by single-stepping the processor. mac_verify and ae_verify over every MAC, EAX and a sample of EAX2. Systematic part: lengths 0..159 with every position and bit, pairs of positions up to length 80; equal differences in all of up to 262144 bytes; lengths over 2^32; every MAC and EAX. Non-trivial: every case.",120000,3000000,c17,160+4+120+43+80,c17fix,120,"verification is observed with key and message fixed; accepting and rejecting may differ in path"});
