// C14: memory safety, absence of undefined behaviour, termination and leaks
#include "mgen.h"
#include "variants.h"
#include <fcntl.h>
#include <unistd.h>
static int lowfd(){ int f=open("/dev/null",O_RDONLY); if(f>=0) close(f); return f; }
static void run(const Prog&p,Ctx&x){ bool rnd=false; for(auto&o:p) rnd|=o.k==RANDOM; for(auto&v:variants()){ int fd=rnd?lowfd():0; Hook*h=(Hook*)v.hook(); Exec*e=v.create(&p,0); if(h) h->reset(); 
    for(size_t i=0;i<p.size();i++){ int r=v.op(e,i); if(r==2) fail("operation %zu, %s: %s",i,op_str(p[i]).c_str(),v.err(e)); if(r==1&&p[i].k!=PBKDF2) fail("operation %zu, %s reported failure",i,op_str(p[i]).c_str()); if(h&&h->err[0]) fail("operation %zu, %s: %s",i,op_str(p[i]).c_str(),h->err); }
    v.finish(e); if(h){ if(h->err[0]) fail("at the end: %s",h->err); size_t n; if(h->live){ if(h->leak(&n)) fail("%lld blocks allocated by the library were never released, one of %zu bytes",(long long)h->live,n); } } if(rnd){ x.label("random source"); if(lowfd()!=fd) fail("a file descriptor was left open"); } x.label(v.name); } }
static void lab(const Prog&p,Ctx&x){ bool big=false,ip=false,rec=false; for(auto&o:p){ if(o.a.size()>1000||o.b.size()>1000) big=true; if(o.inplace) ip=true; if(o.k==RECREATE) rec=true; } if(big) x.label("with data over 1000 bytes"); if(ip) x.label("with in-place operation"); if(rec) x.label("with recreate"); if(p.size()>=8) x.nt(); }
static void c14(Src&s,Ctx&x){ GenOpt o; o.nops=s.draw(4)?16:50; o.random=true; std::string d; Prog p=gen_prog(s,o,&d); x.say("%s",d.c_str()); lab(p,x); run(p,x); }
static const unsigned NE2=400;
static void c14fix(uint64_t i,Ctx&x){ GenOpt o; o.nops=x.thorough?400:60; o.slots=2; o.oneshots=false; GCfg g; unsigned n=cfg_count(); Src s(x.seed*1000003+77,i,0,0); if(i<n) o.only=i; else { i-=n; cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); o.cfg=&g; } std::string d; Prog p=gen_prog(s,o,&d); x.say("single configuration: %s",d.c_str()); x.label("single configuration"); lab(p,x); run(p,x); }
static Reg r14({"C14","operation sequences over up to four live objects of any algorithm (43 ciphers, 16 hashes, 120 MACs, 223 stream modes, EAX and EAX2 over any combination, custom block sizes 1..255), one-shots, key derivation, padding, random source; keys, IVs, salts, tags, data lengths, partitions, aliasing and alignment drawn, all buffers exactly sized; run under AddressSanitizer and UndefinedBehaviorSanitizer with allocation accounting, and (second stage) under MemorySanitizer. Systematic part: every configuration alone. Non-trivial: sequences of at least eight operations.",300000,6000000,c14,543+400,c14fix,60,nullptr});
