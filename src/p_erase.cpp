// C16: contents of released heap memory
#include "mgen.h"
#include "variants.h"
#include <sys/mman.h>
static void setup(Hook*h){ if(h->base) return; h->cap=48u<<20; h->base=(uint8_t*)mmap(0,h->cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); h->rel_cap=48u<<20; h->rel=(uint8_t*)mmap(0,h->rel_cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(h->base==MAP_FAILED||h->rel==MAP_FAILED) fail("harness: no memory"); }
static void secret(Src&s,Bytes&b){ if(b.empty()) return; Bytes n=s.random(b.size()); for(size_t i=0;i<b.size();i++) if(n[i]==b[i]) n[i]^=0x5a; b=n; }
static Prog other(Src&s,const Prog&p,Bytes*){ Prog q=p; for(auto&o:q) switch(o.k){ case CREATE: case RECREATE: if(o.cfg.fam!=2) secret(s,o.a); break; case ENC: case DEC: case HIN: case MIN: case HALL: case PBKDF2: case SCRYPT: secret(s,o.a); break; case MALL: secret(s,o.a); secret(s,o.b); break; } return q; }
struct Rel { std::vector<uint8_t> log; std::vector<size_t> opend; uint64_t releases,count; };
static void run(Variant&v,Hook*h,const Prog&p,uint64_t failat,bool from,Rel&r){ h->reset(); v.prepare(&p); Exec*e=v.create(&p,1); h->reset(); h->arena=1; if(failat){ if(from) h->fail_from=failat; else { h->fail[0]=failat; h->nfail=1; } }
  for(size_t i=0;i<p.size();i++){ int k=v.op(e,i); if(k==2){ h->arena=0; fail("operation %zu, %s: %s",i,op_str(p[i]).c_str(),v.err(e)); } r.opend.push_back(h->rel_len); }
  v.finish(e); h->arena=0; r.log.assign(h->rel,h->rel+h->rel_len); r.releases=h->releases; r.count=h->count; if(h->rel_over) fail("harness: log full"); }
static void compare(const Prog&p,const Rel&a,const Rel&b,const char*vn){ size_t i=0; while(i+16<=a.log.size()&&i+16<=b.log.size()){ uint64_t ha[2],hb[2]; memcpy(ha,&a.log[i],16); memcpy(hb,&b.log[i],16); if(ha[0]!=hb[0]||ha[1]!=hb[1]) fail("%s: releases depend on the secrets (block at %llu of %llu bytes and block at %llu of %llu bytes)",vn,(unsigned long long)ha[0],(unsigned long long)ha[1],(unsigned long long)hb[0],(unsigned long long)hb[1]);
    if(memcmp(&a.log[i+16],&b.log[i+16],ha[1])){ size_t j=0,c=0,last=0; while(a.log[i+16+j]==b.log[i+16+j]) j++; for(size_t k=0;k<ha[1];k++) if(a.log[i+16+k]!=b.log[i+16+k]){ c++; last=k; } size_t op=0; while(op<a.opend.size()&&a.opend[op]<=i) op++; fail("%s: a block of %llu bytes released by %s holds %zu bytes that depend on secrets, at offsets %zu to %zu",vn,(unsigned long long)ha[1],op<p.size()?("operation "+std::to_string(op)+", "+op_str(p[op])).c_str():"the final destroy calls",c,j,last); }
    i+=16+ha[1]; } if(a.log.size()!=b.log.size()) fail("%s: the number of releases depends on the secrets",vn); }
static void go(Src&s,const Prog&p,Ctx&x,unsigned faults){ Prog q=other(s,p,0); bool nt=false; uint64_t f=0; bool from=false; for(auto&v:variants()){ Hook*h=(Hook*)v.hook(); setup(h); Rel a,b; run(v,h,p,0,false,a); run(v,h,q,0,false,b); compare(p,a,b,v.name.c_str()); if(a.releases) nt=true; x.label("released blocks compared"); 
    for(unsigned k=0;k<faults&&a.count;k++){ f=1+s.draw(a.count); from=s.draw(2); Rel c,d; run(v,h,p,f,from,c); run(v,h,q,f,from,d); x.label("with an injected allocation failure"); try { compare(p,c,d,v.name.c_str()); } catch(Fail&e){ throw Fail{"with allocation "+std::to_string(f)+" failing: "+e.msg}; } } } if(nt) x.nt(); }
// every allocation of a short life failing in turn
static void every(Src&s,const Prog&p,Ctx&x){ Prog q=other(s,p,0); for(auto&v:variants()){ Hook*h=(Hook*)v.hook(); setup(h); Rel a,b; run(v,h,p,0,false,a); run(v,h,q,0,false,b); compare(p,a,b,v.name.c_str()); if(a.releases) x.nt(); for(uint64_t f=1;f<=a.count&&f<=60;f++){ Rel c,d; run(v,h,p,f,false,c); run(v,h,q,f,false,d); x.label("with an injected allocation failure"); try { compare(p,c,d,v.name.c_str()); } catch(Fail&e){ throw Fail{"with allocation "+std::to_string(f)+" failing: "+e.msg}; } } } }
static void c16(Src&s,Ctx&x){ GenOpt o; o.nops=s.draw(4)?14:40; o.maxdata=s.draw(4)?0:300; std::string d; Prog p=gen_prog(s,o,&d); x.say("%s",d.c_str()); go(s,p,x,s.draw(3)==2?2:0); }
static void c16fix(uint64_t i,Ctx&x){ if(i>=943){ i-=943; Src s(x.seed*1000003+17,i,0,0); std::string d; Prog p=life_prog(s,i%cfg_count(),&d); x.say("life of one object: %s",d.c_str()); x.label("one life, every allocation failing"); every(s,p,x); return; } GenOpt o; o.nops=x.thorough?200:30; o.slots=2; o.oneshots=false; GCfg g; unsigned n=cfg_count(); Src s(x.seed*1000003+16,i,0,0); if(i<n) o.only=i; else { i-=n; cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); o.cfg=&g; } std::string d; Prog p=gen_prog(s,o,&d); x.say("single configuration: %s",d.c_str()); x.label("single configuration"); go(s,p,x,6); }
static Reg r16({"C16","operation sequences over up to four live objects of any algorithm, one-shots and key derivation, run twice with identical public inputs and different keys, passwords, plaintexts and messages on an allocator with reproducible addresses and contents; every released block must hold the same bytes in both runs; one third also with a failing allocation; library built by gcc -O2, gcc -O3 -DNDEBUG and clang -O2. Systematic part: every configuration alone, with failures; short lives of every configuration (create, use, recreate twice with more rounds, destroy) with every allocation failing in turn. Non-trivial: sequences that release memory.",80000,2000000,c16,543+400+4*543,c16fix,120,"IVs, salts, tweaks, headers and lengths count as public"});
