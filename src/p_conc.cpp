// C18: independence of objects. First stage (plain build): each program alone in a fresh process, all of
// them interleaved operation by operation in one thread, and all in threads of their own; the results must
// agree. Second stage (ThreadSanitizer build): the programs in concurrent threads of a fresh process.
#include "mgen.h"
#include "variants.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cerrno>
struct Res { uint64_t n; uint64_t h; char err[400]; uint8_t first[64]; };
struct Shm { Res r[3][8]; };
static Shm* shm(){ static Shm*p; static pid_t who; if(!p||who!=getpid()){ p=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); who=getpid(); } return p; }
static void keep(Res&r,const Bytes&b){ r.n=b.size(); uint64_t h=1469598103934665603ull; for(uint8_t c:b){ h^=c; h*=1099511628211ull; } r.h=h; for(size_t i=0;i<64;i++) r.first[i]=i<b.size()?b[i]:0; }
static void oneop(Variant&v,Exec*e,const Prog&p,size_t i,Res&r){ if(r.err[0]) return; int k=v.op(e,i); if(k==2) snprintf(r.err,400,"operation %zu, %s: %s",i,op_str(p[i]).c_str(),v.err(e)); else if(k==1&&p[i].k!=PBKDF2) snprintf(r.err,400,"operation %zu, %s reported failure",i,op_str(p[i]).c_str()); }
static void whole(Variant&v,const Prog&p,unsigned fl,Res&r){ memset(&r,0,sizeof r); Exec*e=v.create(&p,fl); for(size_t i=0;i<p.size();i++) oneop(v,e,p,i,r); keep(r,*v.out(e)); v.finish(e); }
struct Th { Variant*v; const Prog*p; unsigned fl; Res*r; pthread_barrier_t*b; pthread_t t; };
static void* body(void*a){ Th&t=*(Th*)a; pthread_barrier_wait(t.b); whole(*t.v,*t.p,t.fl,*t.r); return 0; }
static void threads(Variant&v,const std::vector<Prog>&ps,unsigned fl,Res*r){ pthread_barrier_t b; pthread_barrier_init(&b,0,ps.size()); std::vector<Th> t(ps.size()); for(size_t i=0;i<ps.size();i++){ t[i].v=&v; t[i].p=&ps[i]; t[i].fl=fl; t[i].r=r+i; t[i].b=&b; } for(auto&x:t) if(pthread_create(&x.t,0,body,&x)) _exit(9); for(auto&x:t) pthread_join(x.t,0); pthread_barrier_destroy(&b); }
// runs f in a forked child; its standard error is read back when it fails
template<class F> static void child(const char*what,F f){ static std::string path; char t[]="/tmp/vpconcXXXXXX"; int fd=mkstemp(t); if(fd<0) fail("harness: no temporary file"); unlink(t); pid_t c=fork(); if(c<0) fail("harness: fork"); if(!c){ dup2(fd,2); f(); _exit(0); } int st; while(waitpid(c,&st,0)<0&&errno==EINTR); if(WIFEXITED(st)&&!WEXITSTATUS(st)){ close(fd); return; }
  std::string s(6000,0); ssize_t n=pread(fd,&s[0],s.size(),0); close(fd); s.resize(n>0?n:0); std::string o; size_t i=0; unsigned k=0; while(i<s.size()&&k<14){ size_t j=s.find('\n',i); if(j==std::string::npos) j=s.size(); std::string l=s.substr(i,j-i); i=j+1; if(l.find("WARNING")!=std::string::npos||l.find(" of size ")!=std::string::npos||l.find("#0 ")!=std::string::npos||l.find("#1 ")!=std::string::npos||l.find("Location")!=std::string::npos||l.find("FATAL")!=std::string::npos){ size_t q=l.find_first_not_of(' '); o+=l.substr(q==std::string::npos?0:q)+" "; k++; } }
  if(WIFEXITED(st)&&WEXITSTATUS(st)==66) fail("%s: %s",what,o.c_str()); if(WIFSIGNALED(st)) fail("%s: ended by signal %d %s",what,WTERMSIG(st),o.c_str()); fail("%s: ended with status %d %s",what,WEXITSTATUS(st),o.c_str()); }
static void same(const Res&a,const Res&b,size_t i,const char*how){ if(a.err[0]||b.err[0]){ if(strcmp(a.err,b.err)==0) fail("program %zu: %s",i,a.err); fail("program %zu: alone: %s, %s: %s",i,a.err[0]?a.err:"fine",how,b.err[0]?b.err:"fine"); } if(a.n!=b.n||a.h!=b.h) fail("program %zu gives other results %s than alone (first bytes %s / %s)",i,how,hex(b.first,24).c_str(),hex(a.first,24).c_str()); }
static bool tsan(){ auto&v=variants(); return v[0].name=="tsan"; }
static void run(const std::vector<Prog>&ps,const std::vector<uint8_t>&sched,unsigned fl,Ctx&x){ Shm*m=shm(); auto&vs=variants(); size_t K=ps.size(); auto prep=[&](Variant&v){ if(fl) for(auto&p:ps) v.prepare(&p); else { Prog none; v.finish(v.create(&none,0)); } };
  if(tsan()){ child("concurrent threads",[&]{ prep(vs[0]); threads(vs[0],ps,fl,m->r[0]); if(fl) prep(vs[1]); for(size_t i=0;i<K;i++) whole(vs[1],ps[i],fl,m->r[1][i]); }); for(size_t i=0;i<K;i++) same(m->r[1][i],m->r[0][i],i,"in a concurrent thread"); x.label("concurrent"); return; }
  Variant&v=vs[sched.empty()?0:sched[0]%vs.size()]; x.label(v.name);
  for(size_t i=0;i<K;i++) child("alone",[&]{ Prog one; if(fl) v.prepare(&ps[i]); whole(v,ps[i],fl,m->r[0][i]); });
  child("interleaved",[&]{ prep(v); std::vector<Exec*> e; std::vector<size_t> at(K,0); for(size_t i=0;i<K;i++){ memset(&m->r[1][i],0,sizeof(Res)); e.push_back(v.create(&ps[i],fl)); } size_t left=0; for(auto&p:ps) left+=p.size(); size_t w=0,q=0; while(left){ w=(w+(q<sched.size()?sched[q++]%K:1))%K; unsigned g=0; while(at[w]>=ps[w].size()&&g++<K) w=(w+1)%K; oneop(v,e[w],ps[w],at[w]++,m->r[1][w]); left--; } for(size_t i=0;i<K;i++){ keep(m->r[1][i],*v.out(e[i])); v.finish(e[i]); } });
  for(size_t i=0;i<K;i++) same(m->r[0][i],m->r[1][i],i,"interleaved with the others"); x.label("interleaved");
  child("concurrent threads",[&]{ prep(v); threads(v,ps,fl,m->r[2]); }); for(size_t i=0;i<K;i++) same(m->r[0][i],m->r[2][i],i,"in a concurrent thread"); x.label("concurrent"); }
static std::vector<uint8_t> sched(Src&s,const std::vector<Prog>&ps){ std::vector<uint8_t> r; size_t n=0; for(auto&p:ps) n+=p.size(); unsigned mode=s.draw(3); for(size_t i=0;i<n;i++) r.push_back(mode==0?1:mode==1?s.draw(60):s.draw(6)?0:1+s.draw(7)); if(mode!=1&&!r.empty()) r[0]=s.draw(240); return r; }
static void c18(Src&s,Ctx&x){ unsigned K=2+s.draw(3); std::vector<Prog> ps; unsigned how=s.draw(3); unsigned only=s.draw(cfg_count()); for(unsigned i=0;i<K;i++){ GenOpt o; o.nops=12; o.slots=2; o.heavy=0; o.maxdata=how==2?2000:0; if(how>=1) o.only=only; std::string d; ps.push_back(gen_prog(s,o,&d)); if(d.size()>400) d=d.substr(0,400)+" ..."; x.say("%s[%u] %s",i?" | ":"",i,d.c_str()); if(i&&s.draw(6)==5) ps.back()=ps[0]; } if(how) x.label("same algorithm in all programs"); unsigned fl=s.draw(2); if(fl) x.label("shared descriptors"); size_t n=0; for(auto&p:ps) n+=p.size()>=3; if(n>=2) x.nt(); auto sc=sched(s,ps); run(ps,sc,fl,x); }
static void c18fix(uint64_t i,Ctx&x){ Src s(x.seed*1000003+99,i,0,0); GenOpt o; o.nops=x.thorough?80:24; o.slots=2; o.oneshots=true; GCfg g; unsigned n=cfg_count(); if(i<n) o.only=i; else { i-=n; cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); o.cfg=&g; } std::vector<Prog> ps; std::string d; ps.push_back(gen_prog(s,o,&d)); ps.push_back(gen_prog(s,o,0)); x.say("two programs over one configuration: %s",d.c_str()); x.nt(); x.label("every configuration"); auto sc=sched(s,ps); run(ps,sc,1+0*i,x); }
static Reg r18({"C18","two to four generated programs (operation sequences over up to two objects each and one-shots; all algorithms, factories and custom ciphers; often the same algorithm in all programs; descriptors shared between the programs or created by each) and a schedule. First stage: results of every program alone in a fresh process, interleaved operation by operation by the drawn schedule in one thread, and in concurrent threads must agree. Second stage: concurrent threads in a fresh process under ThreadSanitizer. Systematic part: two programs over each of the 543 configurations and 150 EAX2 pairs. Non-trivial: at least two programs of three or more operations.",16000,500000,c18,543+150,c18fix,120,"objects are distinct per thread; descriptors may be shared"});
