// C15: injected allocation failures
#include "mgen.h"
#include "variants.h"
static bool reports(const Op&o){ switch(o.k){ case CREATE: case RECREATE: case HALL: case MALL: case PBKDF2: case SCRYPT: case RANDOM: return true; } return false; }
struct Base { std::vector<uint64_t> allocs; std::vector<Bytes> outs; std::vector<int> st; };
static void base(Variant&v,Hook*h,const Prog&p,Base&b){ Exec*e=v.create(&p,0); h->reset(); size_t at=0; for(size_t i=0;i<p.size();i++){ uint64_t c=h->count; int r=v.op(e,i); if(r==2||(r==1&&p[i].k!=PBKDF2)) fail("without any injected failure: operation %zu, %s: %s",i,op_str(p[i]).c_str(),r==1?"reported failure":v.err(e)); b.st.push_back(r); b.allocs.push_back(h->count-c); const Bytes&o=*v.out(e); b.outs.push_back(p[i].k==RANDOM?Bytes():Bytes(o.begin()+at,o.end())); at=o.size(); } v.finish(e); if(h->live) fail("without any injected failure: %lld blocks not released",(long long)h->live); }
// run p with failures in operation t; from: every allocation from k on, otherwise only the k-th (and the l-th when l)
static void one(Variant&v,Hook*h,const Prog&p,const Base&b,size_t t,uint64_t k,bool from,uint64_t l,Ctx&x){ const Op&o=p[t];
  int64_t want; { Exec*e=v.create(&p,0); h->reset(); for(size_t i=0;i<t;i++) v.op(e,i); want=h->live-(int64_t)v.owned(e); if(o.k==RECREATE){ Prog q(1); q[0].k=DESTROY; q[0].slot=o.slot; int64_t before=h->live; // what the object holds
      Prog pp(p.begin(),p.begin()+t); pp.push_back(q[0]); Exec*f=v.create(&pp,0); for(size_t i=0;i<t;i++) v.op(f,i); int64_t own=h->live; v.op(f,t); int64_t obj=own-h->live; v.finish(f); want=before-(int64_t)v.owned(e)-obj; } v.finish(e); }
  Exec*e=v.create(&p,0); h->reset(); for(size_t i=0;i<t;i++) v.op(e,i); size_t at=v.out(e)->size();
  if(from) h->fail_from=h->count+k; else { h->fail[0]=h->count+k; h->nfail=1; if(l){ h->fail[1]=h->count+l; h->nfail=2; } }
  int r=v.op(e,t); uint64_t failed=h->failed; h->nfail=0; h->fail_from=0;
  std::string w="operation "+std::to_string(t)+", "+op_str(o)+", with its allocation "+std::to_string(k)+(from?" and all later ones":l?" and "+std::to_string(l):"")+" of "+std::to_string(b.allocs[t])+" failing";
  if(r==2) fail("%s: %s",w.c_str(),v.err(e)); if(!failed) fail("%s: the allocation was not requested again (the call is not deterministic)",w.c_str());
  if(h->err[0]) fail("%s: %s",w.c_str(),h->err);
  if(r==0) fail("%s: success was reported",w.c_str());
  int64_t live=h->live-(int64_t)v.owned(e); if(live!=want) fail("%s: %lld blocks are still allocated, %lld expected",w.c_str(),(long long)live,(long long)want);
  if(v.out(e)->size()!=at) fail("%s: output was produced",w.c_str());
  v.finish(e); if(h->live) fail("%s: %lld blocks not released at the end",w.c_str(),(long long)h->live);
  // the same again, then retry and continue: everything must work as if nothing had happened
  Prog q=p; if(o.k==RECREATE) q[t].k=CREATE; Prog both(p.begin(),p.begin()+t+1); both.insert(both.end(),q.begin()+t,q.end()); e=v.create(&both,0); h->reset(); for(size_t i=0;i<t;i++) v.op(e,i); if(from) h->fail_from=h->count+k; else { h->fail[0]=h->count+k; h->nfail=1; if(l){ h->fail[1]=h->count+l; h->nfail=2; } } v.op(e,t); h->nfail=0; h->fail_from=0;
  at=v.out(e)->size(); for(size_t i=t;i<p.size();i++){ int r2=v.op(e,i+1); if(r2!=b.st[i]) fail("%s: afterwards operation %zu, %s ended with %d (%s)",w.c_str(),i,op_str(q[i]).c_str(),r2,v.err(e)); const Bytes&g=*v.out(e); if(p[i].k!=RANDOM){ Bytes y(g.begin()+at,g.end()); if(y!=b.outs[i]) fail("%s: afterwards operation %zu, %s gives another result",w.c_str(),i,op_str(q[i]).c_str()); } at=g.size(); }
  v.finish(e); if(h->err[0]) fail("%s: later: %s",w.c_str(),h->err); if(h->live) fail("%s: %lld blocks not released at the end",w.c_str(),(long long)h->live); x.label("injected failure"); if(from) x.label("all later allocations failing"); }
static void go(Src*s,const Prog&p,Ctx&x,unsigned maxk){ Variant&v=variants()[0]; Hook*h=(Hook*)v.hook(); Base b; base(v,h,p,b); static const char*const kn[]={"create","recreate"}; 
  for(size_t t=0;t<p.size();t++){ if(!reports(p[t])||!b.allocs[t]) continue; uint64_t n=b.allocs[t]; x.nt(); std::string kl=p[t].k<2?kn[p[t].k]:"one-shot"; x.label("target: "+kl);
    if(n<=maxk){ for(uint64_t k=1;k<=n;k++){ one(v,h,p,b,t,k,false,0,x); one(v,h,p,b,t,k,true,0,x); } if(s&&n>=2){ uint64_t k=1+s->draw(n-1); one(v,h,p,b,t,k,false,k+1+s->draw(n-k),x); } }
    else for(unsigned j=0;j<maxk;j++){ uint64_t k=j<3?j+1:j<5?n-(j-3):s?1+s->draw(n):1+(j*2654435761u)%n; one(v,h,p,b,t,k,j&1,0,x); } } }
static void c15(Src&s,Ctx&x){ GenOpt o; o.nops=10; o.slots=3; o.maxdata=80; o.random=s.draw(8)==7; std::string d; Prog p=gen_prog(s,o,&d); for(auto&q:p) if(q.k==RANDOM) q.r=0; x.say("%s",d.c_str()); go(&s,p,x,10); }
static void c15fix(uint64_t i,Ctx&x){ GenOpt o; o.nops=x.thorough?60:16; o.slots=2; o.oneshots=false; o.maxdata=70; GCfg g; unsigned n=cfg_count(); Src s(x.seed*1000003+15,i,0,0); if(i<n) o.only=i; else { i-=n; cfg_eax2(g,(i*53+i/7)%stream_variants(),(i*29)%mac_variants()); o.cfg=&g; } std::string d; Prog p=gen_prog(s,o,&d); x.say("single configuration: %s",d.c_str()); x.label("single configuration"); go(&s,p,x,14); }
static Reg r15({"C15","operation sequences over up to three live objects, plus one-shots and key derivation; for every create, recreate, one-shot, key derivation and constructor call in the sequence that allocates, every allocation index (up to ten, sampled beyond) is made to fail alone and together with all later ones, and a pair; the call must report failure, hold exactly the blocks it should, release nothing twice, and a retry and all other objects must give the results of the undisturbed run; under AddressSanitizer. Systematic part: every configuration alone. Non-trivial: sequences with at least one allocating call.",24000,500000,c15,543+300,c15fix,120,nullptr});
