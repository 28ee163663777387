// C20: the same operation sequence gives the same results in every build configuration
#include "mgen.h"
#include "variants.h"
static void exec(Variant&v,const Prog&p,Bytes&out){ Exec*e=v.create(&p,0); std::string err; for(size_t i=0;i<p.size();i++){ int r=v.op(e,i); if(r==2){ err=std::string(v.err(e)); fail("%s: operation %zu, %s: %s",v.name.c_str(),i,op_str(p[i]).c_str(),v.err(e)); } if(r==1&&p[i].k!=PBKDF2) fail("%s: operation %zu, %s reported failure",v.name.c_str(),i,op_str(p[i]).c_str()); } out=*v.out(e); v.finish(e); }
// half: which of the builds for the emulated processor take part (the first and the last, or the others); -1 all
static void run(const Prog&p,Ctx&x,int half){ auto&vs=variants(); Bytes a,b; unsigned n=1; bool foreign=false; exec(vs[0],p,a); size_t first=vs.size(); while(first&&!vs[first-1].name.compare(0,4,"mips")) first--; for(size_t k=1;k<vs.size();k++){ if(half>=0&&k>=first&&(k==first||k+1==vs.size())!=(half==0)) continue; if(k>=first) foreign=true; n++; exec(vs[k],p,b); if(a==b) continue; 
    // the operation whose output differs
    Prog q; for(size_t i=0;i<p.size();i++){ q.push_back(p[i]); Bytes c,d; exec(vs[0],q,c); exec(vs[k],q,d); if(c!=d){ size_t j=0; while(j<c.size()&&j<d.size()&&c[j]==d[j]) j++; fail("operation %zu, %s: %s gives ..%s, %s gives ..%s",i,op_str(p[i]).c_str(),vs[0].name.c_str(),hex(c.data()+j,c.size()-j,24).c_str(),vs[k].name.c_str(),hex(d.data()+j,d.size()-j,24).c_str()); } }
    fail("%s and %s differ",vs[0].name.c_str(),vs[k].name.c_str()); } x.label("compared in "+std::to_string(n)+" builds"); if(foreign) x.label("also on a processor of the other byte order or word size"); if(a.size()>=16) x.nt(); }
static void c20(Src&s,Ctx&x){ GenOpt o; o.nops=s.draw(5)?16:40; std::string d; Prog p=gen_prog(s,o,&d); x.say("%s",d.c_str()); run(p,x,(int)s.strat(2)); }
static void c20fix(uint64_t i,Ctx&x){ GenOpt o; o.nops=x.thorough?400:60; o.slots=2; o.oneshots=false; GCfg g; unsigned n=cfg_count(); Src s(x.seed*1000003+55,i,0,0); if(i<n) o.only=i; else { i-=n; cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); o.cfg=&g; } std::string d; Prog p=gen_prog(s,o,&d); x.say("single configuration: %s",d.c_str()); x.label("single configuration"); run(p,x,-1); }
static Reg r20({"C20","generated operation sequences over all algorithms, factories, custom ciphers and one-shots, executed in twelve native builds of the library (gcc and clang; -O0, -O1, -O2, -Os, -O3; native instruction set; generic and KRIPTO_LITTLE_ENDIAN load/store; assembler and portable rotations; assertions on and off; fortified; uninitialised automatic variables filled with a pattern or zero) and in builds for MIPS processors run by an emulator (32-bit big-endian with KRIPTO_BIG_ENDIAN, 32-bit big-endian with the generic helpers, 32-bit little-endian with KRIPTO_LITTLE_ENDIAN, 64-bit big-endian with KRIPTO_BIG_ENDIAN; two of the four per generated case), which also trap unaligned accesses; all outputs must be equal. Systematic part: every one of the 543 configurations and 200 EAX2 pairs alone. Non-trivial: sequences with at least 16 bytes of results.",40000,1200000,c20,543+200,c20fix,120,"big-endian builds run on an emulator of our own (src/emu.cpp); the portable rotations are selected by removing the processor macros"});
