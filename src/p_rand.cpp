// C19: random source
#include "engine.h"
#include "bind.h"
#include "big.h"
#include <algorithm>
#include <fcntl.h>
#include <memory>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
struct RDel { void operator()(kripto_random*p)const{ kripto_random_destroy(p); } }; typedef std::unique_ptr<kripto_random,RDel> RP;
static uint64_t rng(uint64_t&x){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static Bytes uniform(uint64_t seed,size_t n){ Bytes b(n); uint64_t x=seed*0x1234567+99; for(size_t i=0;i<n;i++) b[i]=rng(x)>>24; return b; }
struct MemFile { int fd; std::string path; explicit MemFile(const Bytes&b){ fd=memfd_create("vp",0); if(fd<0) fail("memfd"); size_t p=0; while(p<b.size()){ ssize_t w=write(fd,&b[p],b.size()-p); if(w<=0) fail("memfd write"); p+=w; } path="/proc/self/fd/"+std::to_string(fd); } ~MemFile(){ close(fd); } };
// a pipe fed by a child in the given pieces, each only after the previous one was drained
struct Pipe { int r; pid_t c; std::string path; Pipe(const Bytes&b,const std::vector<size_t>&pieces){ int p[2]; if(pipe(p)) fail("pipe"); r=p[0]; c=fork(); if(!c){ close(p[0]); signal(SIGPIPE,SIG_DFL); alarm(30); size_t o=0; for(size_t n:pieces){ size_t e=o+n; while(o<e){ ssize_t w=write(p[1],&b[o],e-o); if(w<=0) _exit(0); o+=w; } int q; for(int spin=0;!ioctl(p[1],FIONREAD,&q)&&q>0;spin++) usleep(spin<50?5:200); } _exit(0); } close(p[1]); path="/proc/self/fd/"+std::to_string(r); } ~Pipe(){ close(r); kill(c,SIGKILL); waitpid(c,0,0); } };
static void use(const std::string&p){ setenv("KRIPTO_RANDOM",p.c_str(),1); }
static size_t reqsize(Src&s,size_t total){ switch(s.draw(8)){ case 0: return 0; case 1: return 1; case 2: return 4096*(1+s.draw(4))+s.draw(5)-2; case 3: return total; case 4: return total+1+s.draw(5000); case 5: return 1+s.draw(64); default: return s.draw(9000); } }
static void c19gen(Src&s,Ctx&x,bool piped){ size_t n=s.draw(4)?s.draw(40000):s.draw(200000); Bytes data=s.draw(3)?uniform(s.draw(1000),n):s.bytes(n); std::vector<size_t> pieces; if(piped){ n=std::min<size_t>(n,20000); data.resize(n); size_t left=n; while(left){ size_t c=std::min<size_t>(left,pieces.size()>60?left:1+s.draw(s.draw(2)?8:5000)); pieces.push_back(c); left-=c; } }
  x.say("%s of %zu bytes",piped?"pipe delivering short pieces":"file",n); x.label(piped?"short reads":"file"); std::unique_ptr<MemFile> mf; std::unique_ptr<Pipe> pf; if(piped) pf.reset(new Pipe(data,pieces)); else mf.reset(new MemFile(data)); use(piped?pf->path:mf->path);
  RP a(kripto_random_create()); if(!a) fail("kripto_random_create failed on a readable source"); RP b; if(!piped&&s.draw(3)==2){ b.reset(kripto_random_create()); if(!b) fail("second object"); } size_t oa=0,ob=0; unsigned k=1+s.draw(12); bool hitend=false; if(piped&&pf){ close(pf->r); pf->r=-1; }
  for(unsigned i=0;i<k;i++){ bool second=b&&s.draw(2); size_t&o=second?ob:oa; size_t q=reqsize(s,n); size_t w=std::min(q,n-o); x.say(" %s%zu",second?"B":"",q); Guarded g(q,s.draw(16),0xE1); memset(g.p(),0xE1,q); size_t got=kripto_random_gen(second?b.get():a.get(),g.p(),q); g.check("kripto_random_gen"); if(got!=w) fail("%zu bytes requested with %zu left in the source: returned %zu",q,n-o,got); Bytes out=g.get(); eq(Bytes(out.begin(),out.begin()+w),Bytes(data.begin()+o,data.begin()+o+w),"bytes delivered"); if(w<q){ hitend=true; x.label("source ended"); } o+=w; }
  if(s.draw(4)==0&&n-oa>9000){ // the self-test takes from the same source: what follows must come later, not be repeated
    x.say(" test"); kripto_random_test(a.get()); uint8_t o[32]; size_t got=kripto_random_gen(a.get(),o,32); if(got!=32) fail("after the self-test %zu bytes were returned with data left",got); auto it=std::search(data.begin()+oa,data.end(),o,o+32); if(it==data.end()) fail("bytes after the self-test are not the next ones of the source"); x.label("request after self-test"); }
  if(oa||ob||hitend) x.nt(); }
static void c19bad(Src&s,Ctx&x){ unsigned k=s.draw(4); x.nt(); if(k==0){ x.say("absent source"); use("/nonexistent/vp"); if(kripto_random_create()) fail("an object was created although the source does not exist"); }
  else if(k==1){ x.say("source that cannot be read (directory)"); use("/proc/self"); kripto_random*r=kripto_random_create(); if(r){ RP q(r); uint8_t o[16]; if(kripto_random_gen(r,o,16)) fail("bytes reported from an unreadable source"); if(kripto_random_test(r)) fail("self-test accepted an unreadable source"); } }
  else if(k==2){ x.say("empty source"); MemFile f((Bytes())); use(f.path); RP q(kripto_random_create()); if(!q) fail("create"); uint8_t o[16]; if(kripto_random_gen(q.get(),o,16)) fail("bytes reported from an empty source"); if(kripto_random_test(q.get())) fail("self-test accepted an empty source"); }
  else { x.say("default source"); unsetenv("KRIPTO_RANDOM"); RP q(kripto_random_create()); if(!q) fail("create"); size_t n=32+s.draw(70000); Bytes a(n),b(n); if(kripto_random_gen(q.get(),a.data(),n)!=n||kripto_random_gen(q.get(),b.data(),n)!=n) fail("the default source did not fill %zu bytes",n); if(a==b) fail("two requests returned the same bytes"); if(Bytes(a.end()-16,a.end())==Bytes(16,0)) fail("the end of the buffer was not filled"); } x.label("unusual source"); }
// biased sources: all must be rejected
static Bytes biased(Src&s,Ctx&x){ Bytes u=uniform(s.draw(1u<<30),8192),b(4096); uint64_t z=s.draw(1u<<30); switch(s.draw(15)){
  case 0: { unsigned v=s.draw(256); x.say("constant %02x",v); b.assign(4096,v); return b; }
  case 1: { unsigned m=1u<<s.draw(8); bool one=s.draw(2); x.say("bit %02x stuck at %d",m,one); for(int i=0;i<4096;i++) b[i]=one?u[i]|m:u[i]&~m; return b; }
  case 2: { unsigned p=s.draw(2)?30+s.draw(15):56+s.draw(15); x.say("every bit one with probability %u%%",p); for(auto&c:b){ c=0; for(int j=0;j<8;j++) c|=(rng(z)%100<p)<<j; } return b; }
  case 3: { unsigned k=1+s.draw(160); x.say("only %u different byte values",k); std::vector<uint8_t> al(256); for(int i=0;i<256;i++) al[i]=i; for(int i=255;i>0;i--) std::swap(al[i],al[rng(z)%(i+1)]); for(auto&c:b) c=al[rng(z)%k]; return b; }
  case 4: x.say("sorted"); b.assign(u.begin(),u.begin()+4096); std::sort(b.begin(),b.end()); return b;
  case 5: { unsigned k=2+s.draw(15); x.say("every byte repeated %u times",k); for(int i=0;i<4096;i++) b[i]=u[i/k]; return b; }
  case 6: { unsigned k=1+s.draw(1024); x.say("repeats with period %u",k); for(int i=0;i<4096;i++) b[i]=u[i%k]; return b; }
  case 7: { unsigned st=1+2*s.draw(128); x.say("counter with step %u",st); for(int i=0;i<4096;i++) b[i]=i*st; return b; }
  case 8: x.say("printable text"); for(auto&c:b) c=32+rng(z)%95; return b;
  case 9: { unsigned n=s.draw(4096); x.say("only %u bytes",n); b.assign(u.begin(),u.begin()+n); return b; }
  case 10: { unsigned n=1+s.draw(3500); x.say("zeros after %u random bytes",n); for(int i=0;i<4096;i++) b[i]=i<(int)n?u[i]:0; return b; }
  case 11: { x.say("alternating 00/ff with noise"); for(int i=0;i<4096;i++) b[i]=i&1?0xff:0; for(unsigned i=0;i<40;i++) b[rng(z)%4096]=rng(z); return b; }
  case 12: { unsigned p=12+s.draw(60); x.say("%u%% of the bytes are one value",p); unsigned v=s.draw(256); for(int i=0;i<4096;i++) b[i]=rng(z)%100<p?v:u[i]; return b; }
  case 13: { unsigned p=50+s.draw(50); x.say("a byte equals its predecessor with probability %u%%",p); b[0]=u[0]; for(int i=1;i<4096;i++) b[i]=rng(z)%100<p?b[i-1]:u[i]; return b; }
  default: { unsigned p=s.draw(2)?20+s.draw(22):60+s.draw(20); x.say("bits flip with probability %u%%",p); unsigned bit=0; for(auto&c:b){ c=0; for(int j=7;j>=0;j--){ if(rng(z)%100<p) bit^=1; c|=bit<<j; } } return b; } } }
static void c19(Src&s,Ctx&x){ unsigned k=s.strat(20); if(k<10) return c19gen(s,x,false); if(k<12) return c19gen(s,x,true); if(k<13) return c19bad(s,x); x.nt(); Bytes b=biased(s,x); x.label("biased source"); MemFile f(b); use(f.path); RP q(kripto_random_create()); if(!q) fail("create"); if(kripto_random_test(q.get())) fail("the self-test accepted this source"); }
// one request of more than 2^32 bytes, from a sparse file whose end is marked
static void c19big(uint64_t i,Ctx&x){ uint8_t*o=big_scratch(); if(!o){ x.say("no address space"); return; } size_t n=(1ull<<32)+(i==0?4099:1),total=n+(i==1?70:0)-(i==2?100:0); MemFile f((Bytes())); if(ftruncate(f.fd,total)){ x.say("no sparse file"); return; } Bytes m=uniform(77+i,9000); if(pwrite(f.fd,m.data(),9000,total-9000)!=9000){ x.say("no sparse file"); return; } x.say("%zu bytes requested from a source of %zu",n,total); x.nt(); x.label("request above 4 GiB");
  use(f.path); RP q(kripto_random_create()); if(!q) fail("create"); memset(o,0xE1,BIG_UNIT); size_t w=std::min(n,total),got=kripto_random_gen(q.get(),o,n); if(got!=w) fail("returned %zu",got); for(size_t k=0;k<BIG_UNIT-1;k++){ size_t at=w-1-k; uint8_t e=at>=total-9000?m[at-(total-9000)]:0; if(o[at]!=e) fail("byte %zu is wrong",at); } if(i==1){ uint8_t t[71]; if(kripto_random_gen(q.get(),t,71)!=70||memcmp(t,&m[8930],70)) fail("the next request is wrong"); } }
static void c19fix(uint64_t i,Ctx&x){ if(i<3) return c19big(i,x); i-=3; x.nt(); x.say("uniform sources, batch %llu",(unsigned long long)i); unsigned ok=0; for(unsigned j=0;j<600;j++){ Bytes b=uniform((x.seed*1000003+i)*600+j,4096); MemFile f(b); use(f.path); RP q(kripto_random_create()); if(!q) fail("create"); ok+=kripto_random_test(q.get())!=0; } x.label("uniform sources"); if(ok<540) fail("only %u of 600 uniformly random sources were accepted",ok); }
static Reg r19({"C19","sources scripted through KRIPTO_RANDOM: files and pipes delivering short pieces, read with generated sequences of request sizes by one or two objects, compared byte by byte; absent, unreadable, empty and default sources; 15 families of biased sources with drawn parameters, all of which the self-test must reject. Systematic part: batches of 600 uniform sources, at least 90% of which must be accepted (the thresholds accept about 97.7%), and single requests of more than 2^32 bytes. Non-trivial: cases that delivered bytes, reached the end of the source, or judged a source.",150000,2000000,c19,27,c19fix,120,"grossly biased means the drawn parameter ranges"});
