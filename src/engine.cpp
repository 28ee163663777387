#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
std::vector<Prop>& props(){ static std::vector<Prop> p; return p; }
static uint64_t sm(uint64_t&x){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
Src::Src(uint64_t seed,uint64_t idx,uint64_t total,Shared*h):gen(true),sidx(idx),scap(total?total:1),in(0),pos(0),sh(h){ uint64_t x=seed*0x2545F4914F6CDD1Dull+idx*0xD1342543DE82EF95ull+1; for(auto&v:s) v=sm(x); if(sh) sh->ntape=0; }
Src::Src(const std::vector<uint64_t>&t,Shared*h):gen(false),sidx(0),scap(0),in(&t),pos(0),sh(h){ if(sh) sh->ntape=0; }
uint64_t Src::rnd(){ uint64_t r=((s[1]*5)<<7|(s[1]*5)>>57)*9,t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=s[3]<<45|s[3]>>19; return r; }
uint64_t Src::put(uint64_t v){ tape.push_back(v); if(sh&&sh->ntape<(1u<<16)){ sh->tape[sh->ntape]=v; sh->ntape=sh->ntape+1; } return v; }
uint64_t Src::draw(uint64_t n){ if(n<=1) return 0; uint64_t v; if(gen) v=rnd()%n; else v=pos<in->size()?(*in)[pos++]%n:0; return put(v); }
uint64_t Src::strat(uint64_t n){ if(n<=1) return 0; if(!gen) return draw(n); if(scap<n){ scap=0; return draw(n); } uint64_t v=sidx%n; sidx/=n; scap/=n; return put(v); }
bool Src::chance(unsigned num,unsigned den){ return draw(den)>=den-num; }
Bytes Src::bytes(size_t n){ Bytes b(n); if(!n) return b; unsigned k=draw(12);
  uint64_t seed=k>=5?draw(1ull<<32):0; uint64_t x=seed*77+3;
  switch(k){ case 0: break; case 1: memset(b.data(),0xff,n); break; case 2: for(size_t i=0;i<n;i++) b[i]=i; break;
    case 3: memset(b.data(),0x80,n); break; case 4: { size_t bit=draw(n*8); b[bit/8]=0x80>>(bit%8); break; } 
    case 5: for(size_t i=0;i<n;i++) b[i]=sm(x)&1?0xff:0; break; 
    case 6: memset(b.data(),seed&0xff,n); b[(seed>>8)%n]^=1<<(seed>>29); break;
    default: for(size_t i=0;i<n;i+=8){ uint64_t v=sm(x); memcpy(&b[i],&v,n-i<8?n-i:8); } }
  return b; }
Bytes Src::random(size_t n){ Bytes b(n); uint64_t x=draw(1ull<<32)*91+17; for(size_t i=0;i<n;i++) b[i]=sm(x); return b; }
size_t Src::len(size_t max,size_t unit){ if(!max) return 0; if(!unit) unit=1; unsigned k=draw(6); size_t v;
  switch(k){ case 0: v=draw(std::min<size_t>(max,8)+1); break; case 1: case 2: { size_t m=draw(max/unit+1)*unit; int d=(int)draw(5)-2; v=d<0?(m<(size_t)-d?0:m+d):m+d; break; }
    case 3: v=max-draw(std::min<size_t>(max,3)+1); break; default: v=draw(max+1); } return std::min(v,max); }
std::vector<size_t> Src::split(size_t n,size_t unit,size_t multof){ std::vector<size_t> r; size_t m=n/multof; // n is a multiple of multof
  unsigned mode=draw(5); if(mode==0){ r.push_back(n); return r; } size_t u=std::max<size_t>(1,unit/multof); size_t cnt=0;
  if(chance(1,6)) r.push_back(0);
  while(m&&cnt<48){ size_t c; switch(mode){ case 1: c=1; break; case 2: c=u; break; case 3: c=1+draw(std::min<size_t>(m,2*u+2)); break; default: c=1+draw(m); } if(c>m) c=m; r.push_back(c*multof); m-=c; cnt++; if(mode>=3&&chance(1,12)) r.push_back(0); }
  if(m) r.push_back(m*multof);
  return r; }
void Ctx::say(const char*f,...){ if(desc.size()>2900) return; char b[1200]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); desc+=b; if(sh){ strncpy(sh->desc,desc.c_str(),sizeof sh->desc-1); sh->desc[sizeof sh->desc-1]=0; } }
void fail(const char*f,...){ char b[1000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); throw Fail{b}; }
std::string hex(const uint8_t*p,size_t n,size_t max){ std::string s; char t[3]; for(size_t i=0;i<n&&i<max;i++){ snprintf(t,3,"%02x",p[i]); s+=t; } if(n>max) s+="...("+std::to_string(n)+")"; return s; }
void eq(const Bytes&g,const Bytes&w,const char*what){ if(g==w) return; if(g.size()!=w.size()) fail("%s: length %zu, expected %zu",what,g.size(),w.size()); size_t i=0; while(g[i]==w[i]) i++; size_t a=i>8?i-8:0; fail("%s: first difference at byte %zu of %zu: got ..%s expected ..%s",what,i,g.size(),hex(&g[a],std::min<size_t>(24,g.size()-a)).c_str(),hex(&w[a],std::min<size_t>(24,g.size()-a)).c_str()); }

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::string jesc(const std::string&s){ std::string r; char t[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ snprintf(t,8,"\\u%04x",c); r+=t; } else r+=c; } return r; }
// CPU limit of a case, and a far longer one on the clock, for a case that waits for ever
static void cpu_timer(unsigned sec){ itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=sec; setitimer(ITIMER_VIRTUAL,&t,0); t.it_value.tv_sec=sec?8*sec+60:0; setitimer(ITIMER_REAL,&t,0); }
static double user_time(){ timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Shared* newshared(){ return (Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
static bool g_thorough; static uint64_t g_seed=1;
// kind: 0 tape, 1 fixed case index
struct Outcome { int kind; std::string msg,desc; std::vector<uint64_t> tape; }; // kind 0 ok, 1 property failure, 2 crash, 3 killed from outside, 4 does not terminate
static std::string g_known;
void Ctx::known(const char*key,const std::string&msg){ if(g_known.find(std::string(",")+key+",")!=std::string::npos) label(std::string("known finding: ")+key); else fail("%s",msg.c_str()); }
static std::string tail_err(const std::string&f){ FILE*h=fopen(f.c_str(),"r"); if(!h) return ""; std::string s; char b[512]; while(fgets(b,sizeof b,h)){ std::string l=b; if(l.find("ERROR:")!=std::string::npos||l.find("runtime error")!=std::string::npos||l.find("ssertion")!=std::string::npos||l.find("WARNING:")!=std::string::npos||l.find("SUMMARY")!=std::string::npos||l.find("    #0 ")!=std::string::npos||l.find("    #1 ")!=std::string::npos||l.find("    #2 ")!=std::string::npos){ s+=l; if(s.size()>700) break; } } fclose(h); for(auto&c:s) if(c=='\n') c=' '; return s; }
static Outcome classify(int st,Shared*sh,const std::string&err){ Outcome o; o.kind=0; o.desc=sh->desc; o.tape.assign(sh->tape,sh->tape+sh->ntape);
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return o;
  if(WIFEXITED(st)&&WEXITSTATUS(st)==7){ o.kind=1; o.msg=sh->msg; return o; }
  o.kind=2; char b[100]; if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGKILL) o.kind=3; if(s==SIGVTALRM||s==SIGALRM){ o.kind=4; o.msg="does not terminate (time limit of the case exceeded)"; } else { snprintf(b,sizeof b,"crashed: signal %d (%s)",s,strsignal(s)); o.msg=b; } } else { snprintf(b,sizeof b,"crashed: exit status %d",WEXITSTATUS(st)); o.msg=b; }
  std::string t=tail_err(err); if(!t.empty()) o.msg+="; "+t; return o; }
static unsigned g_limit; // while shrinking a case that does not terminate
static unsigned limit_of(const Prop&p,bool fixed){ unsigned l=p.cpu_limit?p.cpu_limit:120; unsigned m=g_thorough?(fixed?l:120):fixed?200:40; return l<m?l:m; }
static void run_one(const Prop&p,Src*src,int64_t fixed,Ctx&c,Shared*sh){ sh->msg[0]=0; sh->desc[0]=0; sh->ntape=0; cpu_timer(g_limit?g_limit:limit_of(p,fixed>=0)); try { if(fixed>=0) p.fixfn(fixed,c); else p.fn(*src,c); } catch(Fail&f){ strncpy(sh->msg,f.msg.c_str(),sizeof sh->msg-1); sh->msg[sizeof sh->msg-1]=0; fflush(0); _exit(7); } cpu_timer(0); }
// run in a child of its own
static Outcome isolated(const Prop&p,const std::vector<uint64_t>*tape,int64_t fixed,const std::string&tmp){ Shared*sh=newshared(); std::string err=tmp+"/iso.err"; fflush(0); pid_t c=fork(); if(!c){ int fd=open(err.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); Ctx x; x.sh=sh; x.labels=0; x.thorough=g_thorough; x.seed=g_seed; if(tape){ Src s(*tape,sh); run_one(p,&s,-1,x,sh); } else run_one(p,0,fixed,x,sh); fflush(0); _exit(0); }
  int st; while(waitpid(c,&st,0)<0&&errno==EINTR); Outcome o=classify(st,sh,err); munmap(sh,sizeof *sh); return o; }
// rerun everything a worker did up to the failing case, in one fresh process
static Outcome history(const Prop&p,uint64_t total,uint64_t nfix,unsigned w,unsigned W,uint64_t upto,const std::string&tmp){ Shared*sh=newshared(); std::string err=tmp+"/hist.err"; fflush(0); pid_t c=fork(); if(!c){ int fd=open(err.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); for(uint64_t i=w;i<=upto;i+=W){ sh->idx=i; Ctx x; x.sh=sh; x.labels=0; x.thorough=g_thorough; x.seed=g_seed; if(i<nfix) run_one(p,0,i,x,sh); else { Src s(g_seed,i-nfix,total,sh); run_one(p,&s,-1,x,sh); } } fflush(0); _exit(0); }
  int st; while(waitpid(c,&st,0)<0&&errno==EINTR); Outcome o=classify(st,sh,err); munmap(sh,sizeof *sh); return o; }
static bool bad(const Outcome&o){ return o.kind==1||o.kind==2||o.kind==4; }
static std::vector<uint64_t> shrink(const Prop&p,Outcome&o,const std::string&tmp,double limit){ std::vector<uint64_t> best=o.tape; double t0=now(); unsigned tries=0; int kind=o.kind; if(kind==4) g_limit=10;
  auto attempt=[&](const std::vector<uint64_t>&t){ if(now()-t0>limit||tries>3000) return false; tries++; Outcome r=isolated(p,&t,-1,tmp); if(r.kind==kind){ std::vector<uint64_t> u=r.tape; bool better=u.size()<best.size()||(u.size()==best.size()&&u<best); if(!better) return false; best=u; o.msg=r.msg; o.desc=r.desc; return true; } return false; };
  bool again=true; while(again&&now()-t0<limit){ again=false;
    for(size_t k=std::max<size_t>(1,best.size()/2);k>=1&&now()-t0<limit;k/=2){ for(size_t i=0;i+k<=best.size();){ auto t=best; t.erase(t.begin()+i,t.begin()+i+k); if(attempt(t)) again=true; else i+=k>4?k/2:1; if(now()-t0>limit) break; } if(k==1) break; }
    for(size_t i=0;i<best.size()&&now()-t0<limit;i++){ if(!best[i]) continue; auto t=best; t[i]=0; if(attempt(t)){ again=true; continue; } uint64_t lo=0,hi=best[i]; unsigned steps=0; while(hi-lo>1&&i<best.size()&&steps++<12){ uint64_t m=lo+(hi-lo)/2; t=best; if(i>=t.size()) break; t[i]=m; if(attempt(t)){ again=true; hi=m; } else lo=m; } if(i<best.size()&&best[i]){ t=best; t[i]--; if(attempt(t)) again=true; } } }
  g_limit=0; return best; }

int engine_main(int argc,char**argv){ std::string id,tier="quick",out,replay,tmp; double tlimit=300; unsigned W=0; double scale=1; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); }; if(a=="--prop") id=nx(); else if(a=="--tier") tier=nx(); else if(a=="--seed") g_seed=strtoull(nx().c_str(),0,10); else if(a=="--out") out=nx(); else if(a=="--replay") replay=nx(); else if(a=="--tmp") tmp=nx(); else if(a=="--time") tlimit=atof(nx().c_str()); else if(a=="--workers") W=atoi(nx().c_str()); else if(a=="--known") g_known=","+nx()+","; else if(a=="--scale") scale=atof(nx().c_str()); }
  Prop*pp=0; for(auto&q:props()) if(id==q.id) pp=&q; if(!pp){ fprintf(stderr,"unknown property %s\n",id.c_str()); return 2; } const Prop&p=*pp; g_thorough=tier=="thorough"; signal(SIGPIPE,SIG_IGN);
  if(tmp.empty()){ char t[]="/tmp/vpXXXXXX"; tmp=mkdtemp(t); }
  if(!W){ long n=sysconf(_SC_NPROCESSORS_ONLN); W=n<1?1:n>16?16:n; }
  if(!replay.empty()){ FILE*f=fopen(replay.c_str(),"r"); if(!f){ perror(replay.c_str()); return 2; } std::string s; char b[4096]; size_t r; while((r=fread(b,1,sizeof b,f))>0) s.append(b,r); fclose(f);
    auto num=[&](const char*k)->int64_t{ size_t i=s.find(std::string("\"")+k+"\":"); return i==std::string::npos?-1:strtoll(s.c_str()+i+strlen(k)+3,0,10); };
    if(num("thorough")==1) g_thorough=true;
    if(num("seed")>=0) g_seed=num("seed");
    Outcome o; size_t c=s.find("\"choices\":["); if(num("fixed")>=0) o=isolated(p,0,num("fixed"),tmp); else if(num("upto")>=0) o=history(p,num("total"),num("nfix"),num("worker"),num("stride"),num("upto"),tmp); else if(c!=std::string::npos){ std::vector<uint64_t> t; const char*q=s.c_str()+c+11; while(*q&&*q!=']'){ char*e; uint64_t v=strtoull(q,&e,10); if(e==q) break; t.push_back(v); q=*e==','?e+1:e; } o=isolated(p,&t,-1,tmp); } else { fprintf(stderr,"bad replay file\n"); return 2; }
    printf("case: %s\n",o.desc.c_str()); if(bad(o)){ printf("fails: %s\n",o.msg.c_str()); printf("VIOLATION property=%s replay=%s\n",id.c_str(),replay.c_str()); return 1; } printf("holds\n"); return 0; }
  double t0=now(); uint64_t total=(uint64_t)((g_thorough?p.thorough:p.quick)*scale),nfix=p.fixfn?p.fixed:0,N=total+nfix;
  struct Wk { pid_t pid; Shared*sh; uint64_t start; unsigned w; int restarts; }; std::vector<Wk> ws; std::vector<std::string> unrep; 
  auto spawn=[&](Wk&k){ fflush(0); k.pid=fork(); if(k.pid) return; std::string base=tmp+"/w"+std::to_string(k.w); int fd=open((base+".err").c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); std::map<std::string,uint64_t> labels; std::vector<uint64_t> seen; uint64_t done=0; std::vector<std::string> samples; bool cut=false; double slow[2][2]={{0,0},{0,0}}; FILE*times=getenv("VP_TIMES")?fopen(getenv("VP_TIMES"),"a"):0;
    for(uint64_t i=k.start;i<N;i+=W){ if(i>=nfix&&now()-t0>tlimit){ cut=true; break; } k.sh->idx=i; k.sh->state=1; double u0=user_time(),w0=now(); Ctx c; c.sh=k.sh; c.labels=&labels; c.thorough=g_thorough; c.seed=g_seed; uint64_t h=1469598103934665603ull;
      if(i<nfix){ run_one(p,0,i,c,k.sh); h^=i*0x9e3779b97f4a7c15ull; h*=1099511628211ull; } else { Src s(g_seed,i-nfix,total,k.sh); run_one(p,&s,-1,c,k.sh); for(uint64_t v:s.tape){ h^=v; h*=1099511628211ull; h^=h>>29; } h^=1; }
      k.sh->state=0; if(getenv("VP_TIMES")){ double u=user_time()-u0,w=now()-w0; double*m=slow[i<nfix]; if(u>m[0]) m[0]=u; if(w>m[1]) m[1]=w; if(u>3||w>10) fprintf(times,"%s %s %.1f cpu %.1f wall %s\n",id.c_str(),i<nfix?"fixed":"generated",u,w,c.desc.substr(0,150).c_str()); } done++; if(c.nontrivial) seen.push_back(h); if(samples.size()<3&&c.nontrivial&&(done%7==3||done>20)) samples.push_back(c.desc); }
    if(times){ fprintf(times,"%s max generated %.2f cpu %.2f wall, fixed %.2f cpu %.2f wall\n",id.c_str(),slow[0][0],slow[0][1],slow[1][0],slow[1][1]); fclose(times); }
    FILE*f=fopen((base+"."+std::to_string(k.restarts)+".res").c_str(),"w"); if(!f) _exit(9); fprintf(f,"done %llu %d\n",(unsigned long long)done,(int)cut); { FILE*g=fopen((base+"."+std::to_string(k.restarts)+".seen").c_str(),"w"); if(!g||(seen.size()&&fwrite(seen.data(),8,seen.size(),g)!=seen.size())) _exit(9); fclose(g); } for(auto&l:labels) fprintf(f,"l %llu %s\n",(unsigned long long)l.second,l.first.c_str()); for(auto&s:samples){ std::string t=s; for(auto&ch:t) if(ch=='\n') ch=' '; fprintf(f,"s %s\n",t.c_str()); } fclose(f); fflush(0); _exit(0); };
  for(unsigned w=0;w<W;w++){ Wk k; k.sh=newshared(); k.start=w; k.w=w; k.restarts=0; ws.push_back(k); } for(auto&k:ws) spawn(k);
  unsigned live=W; bool found=false; Outcome fo; uint64_t fidx=0; unsigned fw=0; uint64_t lost=0;
  while(live){ int st; pid_t c=waitpid(-1,&st,0); if(c<0){ if(errno==EINTR) continue; break; } Wk*k=0; for(auto&q:ws) if(q.pid==c) k=&q; if(!k) continue; live--; if(WIFEXITED(st)&&WEXITSTATUS(st)==0) continue;
    Outcome o=classify(st,k->sh,tmp+"/w"+std::to_string(k->w)+".err"); uint64_t i=k->sh->idx;
    // reproduce
    bool rep=false; Outcome r; unsigned hits=0; if(o.kind!=3){ for(int t=0;t<3;t++){ r=i<nfix?isolated(p,0,i,tmp):isolated(p,&o.tape,-1,tmp); hits+=bad(r); if(r.kind==4) hits=3; if(hits==3) break; } rep=hits==3; }
    if(rep){ found=true; fo=r; if(i>=nfix) fo.tape=r.tape; fidx=i; fw=k->w; break; }
    if(o.kind!=3){ // perhaps it needs what the worker did before
      unsigned hh=0; Outcome q; for(int t=0;t<3;t++){ Outcome z=history(p,total,nfix,k->w,W,i,tmp); if(bad(z)){ hh++; q=z; } else break; }
      if(hh==3){ found=true; fo=q; fidx=i; fw=k->w; fo.kind=9; break; }
      for(int t=0;t<12&&hits<3;t++){ r=i<nfix?isolated(p,0,i,tmp):isolated(p,&o.tape,-1,tmp); hits+=bad(r); if(bad(r)) fo=r; }
      if(hits>=3){ found=true; fo.tape=o.tape; fidx=i; fw=k->w; fo.kind=8; break; } }
    unrep.push_back("case "+std::to_string(i)+": "+o.msg); fprintf(stderr,"note: case %llu failed once and not again: %s [%s]\n",(unsigned long long)i,o.msg.c_str(),o.desc.c_str()); lost++;
    if(k->restarts<20){ k->restarts++; k->start=i+W; spawn(*k); live++; } }
  if(found) for(auto&k:ws) kill(k.pid,SIGKILL);
  while(waitpid(-1,0,0)>0);
  uint64_t done=0; bool cut=false; std::vector<uint64_t> seen; std::map<std::string,uint64_t> labels; std::vector<std::string> samples;
  for(auto&k:ws) for(int r=0;r<=k.restarts;r++){ FILE*f=fopen((tmp+"/w"+std::to_string(k.w)+"."+std::to_string(r)+".res").c_str(),"r"); if(!f) continue; char*line=0; size_t cap=0; unsigned ns=0; while(getline(&line,&cap,f)>0){ unsigned long long a; int c; int n=0; if(sscanf(line,"done %llu %d",&a,&c)==2){ done+=a; cut|=c; } else if(line[0]=='l'&&sscanf(line,"l %llu %n",&a,&n)==1){ std::string l=line+n; while(!l.empty()&&l.back()=='\n') l.pop_back(); labels[l]+=a; } else if(line[0]=='s'&&ns++<2&&samples.size()<8){ std::string l=line+2; while(!l.empty()&&l.back()=='\n') l.pop_back(); samples.push_back(l); } } free(line); fclose(f); std::string sf=tmp+"/w"+std::to_string(k.w)+"."+std::to_string(r)+".seen"; if(FILE*g=fopen(sf.c_str(),"r")){ uint64_t v[4096]; size_t n; while((n=fread(v,8,4096,g))>0) seen.insert(seen.end(),v,v+n); fclose(g); unlink(sf.c_str()); } }
  std::sort(seen.begin(),seen.end()); seen.erase(std::unique(seen.begin(),seen.end()),seen.end());
  std::string rpath;
  if(found){ const char*o=out.empty()?tmp.c_str():out.c_str(); std::string dir=getenv("VP_REPLAY_DIR")?getenv("VP_REPLAY_DIR"):std::string("."); (void)o; std::string body; char b[256];
    std::vector<uint64_t> t; if(fo.kind!=9&&fidx>=nfix){ if(fo.kind==1||fo.kind==2||fo.kind==4) t=shrink(p,fo,tmp,60); else t=fo.tape; }
    body="{\n \"property\":\""+id+"\",\n \"message\":\""+jesc(fo.msg)+"\",\n \"case\":\""+jesc(fo.desc)+"\",\n"; snprintf(b,sizeof b," \"seed\":%llu,\n \"thorough\":%d,\n",(unsigned long long)g_seed,(int)g_thorough); body+=b;
    if(fo.kind==9){ snprintf(b,sizeof b," \"total\":%llu, \"nfix\":%llu, \"worker\":%u, \"stride\":%u, \"upto\":%llu\n}\n",(unsigned long long)total,(unsigned long long)nfix,fw,W,(unsigned long long)fidx); body+=b; }
    else if(fidx<nfix){ snprintf(b,sizeof b," \"fixed\":%llu\n}\n",(unsigned long long)fidx); body+=b; }
    else { body+=" \"choices\":["; for(size_t i=0;i<t.size();i++) body+=(i?",":"")+std::to_string(t[i]); body+="]\n}\n"; }
    uint64_t h=1469598103934665603ull; for(unsigned char c:body){ h^=c; h*=1099511628211ull; } snprintf(b,sizeof b,"/%s-%016llx%s.json",id.c_str(),(unsigned long long)h,getenv("VP_REPLAY_SUFFIX")?getenv("VP_REPLAY_SUFFIX"):""); rpath=dir+b; FILE*f=fopen(rpath.c_str(),"w"); if(f){ fwrite(body.data(),1,body.size(),f); fclose(f); }
    done+=1; if(samples.empty()) samples.push_back(fo.desc); printf("case: %s\nfails: %s\n",fo.desc.c_str(),fo.msg.c_str()); }
  if(!out.empty()){ FILE*f=fopen(out.c_str(),"w"); if(f){ fprintf(f,"{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"planned\":%llu,\"cut_by_time\":%s,\"systematic\":%llu,\"rule\":\"%s\",\"assume\":\"%s\",\"samples\":[",(unsigned long long)done,seen.size(),(unsigned long long)N,cut?"true":"false",(unsigned long long)nfix,jesc(p.rule).c_str(),jesc(p.assume?p.assume:"").c_str()); for(size_t i=0;i<samples.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(samples[i].substr(0,900)).c_str()); fprintf(f,"],\"labels\":{"); bool first=true; for(auto&l:labels){ fprintf(f,"%s\"%s\":%llu",first?"":",",jesc(l.first).c_str(),(unsigned long long)l.second); first=false; } fprintf(f,"},\"unreproduced\":["); for(size_t i=0;i<unrep.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(unrep[i]).c_str()); fprintf(f,"],\"wall\":%.2f,\"violation\":\"%s\"}\n",now()-t0,jesc(rpath).c_str()); fclose(f); } }
  if(found){ printf("VIOLATION property=%s replay=%s\n",id.c_str(),rpath.c_str()); return 1; }
  printf("%s: %llu of %llu cases%s, %zu distinct non-trivial, %.1f s\n",id.c_str(),(unsigned long long)done,(unsigned long long)N,cut?" (time limit)":"",seen.size(),now()-t0); return 0; }
