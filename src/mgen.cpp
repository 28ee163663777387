#include "mgen.h"
#include "toy.h"
static std::vector<unsigned>& xb(){ static std::vector<unsigned> v; if(v.empty()) for(unsigned i=0;i<n_blocks;i++){ auto&s=rblock(g_blocks[i].name); if(s.bs<=s.maxkey) v.push_back(i); } return v; }
static Cfg mac_id(unsigned w){ Cfg c; c.fam=3; if(w<n_hashes){ c.kind=0; c.a=w; } else if((w-=n_hashes)<n_blocks){ c.kind=1; c.a=w; } else if((w-=n_blocks)<xb().size()){ c.kind=2; c.a=xb()[w]; } else { c.kind=3; c.a=w-xb().size(); } return c; }
static Cfg stream_id(unsigned w){ Cfg c; c.fam=4; if(w<n_streams){ c.kind=9; c.a=w; } else { w-=n_streams; c.kind=w%5; c.a=w/5; } return c; }
std::vector<unsigned> GCfg::rounds(unsigned kl)const{ switch(id.fam){ case 1: return b->rounds(kl); case 2: return h->rounds(); case 3: return m.rounds(kl); case 4: return st.rounds(kl); default: return ae.rounds(kl); } }
static void g_block(GCfg&g,unsigned i){ g.id.fam=1; g.id.a=i; g.b=&rblock(g_blocks[i].name); g.name=g.b->name; g.maxkey=g.b->maxkey; g.unit=g.multof=g.b->bs; }
static void g_hash(GCfg&g,unsigned i){ g.id.fam=2; g.id.a=i; g.h=&ref::hash(g_hashes[i].name); g.name=g.h->name; g.maxkey=1; g.maxiv=std::min<uint64_t>(g.h->maxsalt,300); g.maxout=g.h->maxout?g.h->maxout:400; g.unit=g.h->blocksize; }
static void f_mac(GCfg&g){ g.name=g.m.name; g.maxkey=g.m.maxkey; g.maxout=g.m.maxtag; g.unit=g.m.block; }
static void f_st(GCfg&g){ g.name=g.st.name; g.maxkey=g.st.maxkey; g.maxiv=g.st.maxiv; g.multof=g.st.multof; g.unit=g.st.unit; g.prng=g.st.has_prng(); }
static void f_ae(GCfg&g){ g.name=g.ae.name; g.maxkey=g.ae.maxkey; g.minkey=g.ae.minkey; g.maxiv=g.ae.maxiv; g.maxout=g.ae.maxtag; g.multof=g.ae.multof; g.unit=g.ae.unit; }
static void g_mac(GCfg&g,unsigned w){ g.id=mac_id(w); mac_cfg(g.m,w); f_mac(g); }
static void g_stream(GCfg&g,unsigned w){ g.id=stream_id(w); stream_cfg(g.st,w); f_st(g); }
static void g_eax(GCfg&g,unsigned i){ g.id.fam=5; g.id.a=i; ae_eax(g.ae,i); f_ae(g); }
unsigned cfg_count(){ return n_blocks+n_hashes+mac_variants()+stream_variants()+n_blocks; }
void cfg_fixed(GCfg&g,unsigned i){ if(i<n_blocks) return g_block(g,i); i-=n_blocks; if(i<n_hashes) return g_hash(g,i); i-=n_hashes; if(i<mac_variants()) return g_mac(g,i); i-=mac_variants(); if(i<stream_variants()) return g_stream(g,i); i-=stream_variants(); g_eax(g,i%n_blocks); }
void cfg_eax2(GCfg&g,unsigned sv,unsigned mv){ if(!ae_eax2(g.ae,sv,mv)){ g.ae.~AeCfg(); new(&g.ae) AeCfg(); mv=0; ae_eax2(g.ae,sv,0); } Cfg s=stream_id(sv),m=mac_id(mv); g.id.fam=5; g.id.kind=1; g.id.sk=s.kind; g.id.a=s.a; g.id.mk=m.kind; g.id.b=m.a; f_ae(g); }
void cfg_pick(Src&s,GCfg&g,int fam){ switch(fam){
  case 1: { unsigned w=s.draw(n_blocks+2); if(w<n_blocks) return g_block(g,w); unsigned bs=1+s.draw(255); g.id.fam=1; g.id.a=1000+bs; g.b=&toy(bs).rs; g.name=g.b->name; g.maxkey=255; g.unit=g.multof=bs; return; }
  case 2: return g_hash(g,s.draw(n_hashes));
  case 3: { unsigned w=s.draw(mac_variants()+20); if(w<mac_variants()) return g_mac(g,w); bool x=s.draw(2); unsigned bs=1+s.draw(255); g.id.fam=3; g.id.kind=x?2:1; g.id.a=1000+bs; mac_toy(g.m,x,bs); f_mac(g); return; }
  case 4: { unsigned v=stream_variants(); unsigned w=s.draw(v+6*n_streams+30); if(w<v) return g_stream(g,w); w-=v; if(w<6*n_streams) return g_stream(g,w%n_streams); unsigned m=s.draw(5),bs=1+s.draw(255); g.id.fam=4; g.id.kind=m; g.id.a=1000+bs; stream_toy(g.st,m,bs); f_st(g); return; }
  default: { unsigned k=s.draw(5); if(k<2){ unsigned w=s.draw(n_blocks+20); if(w<n_blocks) return g_eax(g,w); unsigned bs=1+s.draw(255); g.id.fam=5; g.id.a=1000+bs; ae_eax_toy(g.ae,bs); f_ae(g); return; } unsigned sv=s.draw(stream_variants()+6*n_streams); if(sv>=stream_variants()) sv=(sv-stream_variants())%n_streams; cfg_eax2(g,sv,s.draw(mac_variants())); } } }
std::string cfg_str(const Cfg&c){ char b[100]; auto bn=[](unsigned a){ static char t[4][20]; static int i; char*r=t[i++&3]; if(a>=1000) snprintf(r,20,"custom%u",a-1000); else snprintf(r,20,"%s",g_blocks[a].name); return r; };
  auto mac=[&](unsigned k,unsigned a)->std::string{ return k==0?std::string("hmac(")+g_hashes[a].name+")":k==3?std::string(g_macs[a].name)+" mac":std::string(k==1?"omac(":"xcbc(")+bn(a)+")"; }; auto st=[&](unsigned k,unsigned a)->std::string{ return k==9?std::string(g_streams[a].name):std::string(g_modes[k])+"("+bn(a)+")"; };
  (void)b; switch(c.fam){ case 1: return bn(c.a); case 2: return g_hashes[c.a].name; case 3: return mac(c.kind,c.a); case 4: return st(c.kind,c.a); case 5: return c.kind?std::string("eax2(")+st(c.sk,c.a)+","+mac(c.mk,c.b)+")":std::string("eax(")+bn(c.a)+")"; } return "-"; }
std::string op_str(const Op&o){ static const char*const n[]={"create","recreate","destroy","tweak","encrypt","decrypt","hash_input","hash_output","mac_input","mac_tag","mac_verify","prng","header","ae_tag","ae_verify","hash_all","mac_all","pbkdf2","scrypt","pkcs7_add","pkcs7_rem","memory_equals","memory_wipe","random"}; std::string r=n[o.k]; char b[200];
  switch(o.k){ case CREATE: case RECREATE: snprintf(b,200,"#%u(%s,rounds=%u,key=%zu,iv/salt=%zu,n=%u)",o.slot,cfg_str(o.cfg).c_str(),o.rounds,o.a.size(),o.b.size(),o.n); break; case HALL: case MALL: snprintf(b,200,"(%s,rounds=%u,%zu,%zu,n=%u)",cfg_str(o.cfg).c_str(),o.rounds,o.a.size(),o.b.size(),o.n); break; case PBKDF2: snprintf(b,200,"(%s,rounds=%u,iter=%u,pass=%zu,salt=%zu,n=%u)",cfg_str(o.cfg).c_str(),o.rounds,o.iter,o.a.size(),o.b.size(),o.n); break; case SCRYPT: snprintf(b,200,"(%s,rounds=%u,N=%llu,r=%u,p=%u,pass=%zu,salt=%zu,n=%u)",cfg_str(o.cfg).c_str(),o.rounds,(unsigned long long)o.N,o.r,o.p,o.a.size(),o.b.size(),o.n); break;
    case PADD: case PREM: case MEQ: case WIPE: case RANDOM: snprintf(b,200,"(%zu,n=%u,cap=%u)",o.a.size(),o.n,o.p); break; default: snprintf(b,200,"#%u(%zu%s)",o.slot,o.k==HOUT||o.k==MTAG||o.k==PRNG||o.k==ATAG?(size_t)o.n:o.a.size(),o.inplace?",in place":""); } return r+b; }
struct SlotG { std::unique_ptr<GCfg> g; int phase=0; unsigned outleft=0,taglen=0; };
static void params(Src&s,GCfg&g,Op&o,SlotG&sl){ if(g.id.fam!=2){ unsigned n; if(g.id.fam==5) n=pick_keylen(s,g.maxkey,700); else n=pick_keylen(s,g.maxkey,s.draw(10)?200:1500); if(g.id.fam==3&&!g.m.b) n=1+s.draw(s.draw(3)?2*g.unit+4:600); if(n<g.minkey) n=g.minkey; o.a=s.bytes(n); o.rounds=pick_rounds(s,g.rounds(n),1,3); } else o.rounds=pick_rounds(s,g.rounds(0),1,3);
  if(o.rounds>200&&s.draw(4)) o.rounds=0;
  if(g.id.fam==2||g.id.fam>=4){ unsigned k=s.draw(4); size_t n=!g.maxiv?0:k==0?std::min(g.maxiv,g.unit):k==1?0:k==2?g.maxiv-s.draw(std::min(g.maxiv,3u)+1):s.draw(g.maxiv+1); o.b=s.bytes(n); }
  if(g.id.fam==2||g.id.fam==3||g.id.fam==5){ unsigned k=s.draw(3); o.n=k==0?g.maxout:1+s.draw(g.maxout); bool kec=g.id.fam==2&&g.name[0]=='k'; if(kec){ unsigned cap=g.h->blocksize==200?99:49; o.n=1+s.draw(cap); } sl.outleft=o.n; sl.taglen=o.n; if(kec) sl.outleft=100000; } o.cfg=g.id; sl.phase=0; }
static Bytes data(Src&s,const GCfg&g,unsigned maxd){ size_t n; unsigned k=s.draw(40); size_t cap=maxd?maxd:k==39?6000:3*g.unit+8; n=k==39&&!maxd?s.draw(cap):s.len(cap,g.unit); n-=n%g.multof; return s.bytes(n); }
Prog gen_prog(Src&s,const GenOpt&go,std::string*desc){ Prog p; SlotG sl[NSLOT]; unsigned slots=std::min(go.slots,NSLOT); unsigned nops=go.nops/2+s.draw(go.nops);
  for(unsigned i=0;i<nops;i++){ Op o; o.mis=s.draw(3)?0:s.draw(16);
    if(go.oneshots&&s.chance(1,7)){ unsigned k=s.draw(go.random?9:8); switch(k){
        case 0: { GCfg g; g_hash(g,s.draw(n_hashes)); o.k=HALL; o.cfg=g.id; o.rounds=pick_rounds(s,g.rounds(0),1,3); o.a=data(s,g,go.maxdata); o.b=s.bytes(s.draw(std::min(g.maxiv,64u)+1)); o.n=1+s.draw(g.h->maxout?g.h->maxout:g.name[0]!='k'?300:g.h->blocksize==200?99:49); break; }
        case 1: { GCfg g; cfg_pick(s,g,3); o.k=MALL; SlotG t; params(s,g,o,t); o.b=data(s,g,go.maxdata); break; }
        case 2: { GCfg g; cfg_pick(s,g,3); o.k=PBKDF2; SlotG t; params(s,g,o,t); o.b=s.bytes(s.draw(80)); o.iter=1+s.draw(3); o.n=s.draw(3*g.maxout+3); if(g.id.kind==0&&!g.m.h->maxout) o.n=0,o.k=MALL,o.n=1+s.draw(g.maxout); else if(g.id.kind==3&&(g.m.nw==0)) o.k=MALL,o.n=1+s.draw(g.maxout); break; }
        case 3: { if(s.draw(2)==0){ GCfg g; cfg_pick(s,g,3); if(g.maxout>=16&&!(g.id.kind==0&&!g.m.h->maxout)&&!(g.id.kind==3&&g.m.nw==0)){ o.k=SCRYPT; SlotG t; params(s,g,o,t); o.b=s.bytes(s.draw(60)); o.N=1ull<<s.draw(5); o.r=1+s.draw(3); o.p=1+s.draw(2); o.n=s.draw(70); break; } } }
        // fallthrough
        case 4: { o.k=PADD; unsigned n=s.draw(5)?s.draw(600):s.draw(3); o.a=s.bytes(n); o.n=1+s.draw(255); o.p=n+s.draw(300); break; }
        case 5: { o.k=PREM; unsigned n=s.draw(5)?s.draw(600):s.draw(3); o.a=s.bytes(n); if(n&&s.draw(2)){ unsigned k=1+s.draw(std::min(n,255u)); for(unsigned j=0;j<k;j++) o.a[n-1-j]=k; } else if(n&&s.draw(2)) o.a[n-1]=s.draw(256); break; }
        case 6: { o.k=MEQ; unsigned n=s.draw(5)?s.draw(200):s.draw(3); o.a=s.bytes(n); o.b=o.a; if(n&&s.draw(3)) o.b[s.draw(n)]^=1<<s.draw(8); break; }
        case 7: o.k=WIPE; o.a=s.bytes(s.draw(5)?s.draw(300):s.draw(3)); break;
        default: o.k=RANDOM; o.n=s.draw(300); o.r=s.draw(8)==7; } p.push_back(o); continue; }
    unsigned w=s.draw(slots); SlotG&t=sl[w]; o.slot=w;
    if(!t.g){ t.g.reset(new GCfg); if(go.only>=0) cfg_fixed(*t.g,go.only); else if(go.cfg&&go.cfg->id.kind==1&&go.cfg->id.fam==5) { /* EAX2 pair */ GCfg&q=*t.g; unsigned sv=0,mv=0; for(;sv<stream_variants();sv++){ Cfg c=stream_id(sv); if(c.kind==go.cfg->id.sk&&c.a==go.cfg->id.a) break; } for(;mv<mac_variants();mv++){ Cfg c=mac_id(mv); if(c.kind==go.cfg->id.mk&&c.a==go.cfg->id.b) break; } cfg_eax2(q,sv,mv); } else cfg_pick(s,*t.g,1+s.draw(5)); o.k=CREATE; params(s,*t.g,o,t); p.push_back(o); continue; }
    GCfg&g=*t.g; unsigned life=s.draw(12); if(life==11){ o.k=DESTROY; p.push_back(o); t.g.reset(); continue; } bool dead=(g.id.fam==2&&t.phase==1&&!t.outleft)||((g.id.fam==3||g.id.fam==5)&&t.phase==2); if(life>=9||dead){ o.k=RECREATE; params(s,g,o,t); p.push_back(o); continue; }
    switch(g.id.fam){
      case 1: if(g.b->maxtweak&&s.draw(4)==3){ o.k=TWEAK; o.a=s.bytes(1+s.draw(g.b->maxtweak)); } else { o.k=s.draw(2)?DEC:ENC; o.a=s.bytes(g.b->bs); o.inplace=s.draw(2); } break;
      case 2: if(t.phase==0&&s.draw(3)){ o.k=HIN; o.a=data(s,g,go.maxdata); } else { o.k=HOUT; t.phase=1; unsigned m=std::min(t.outleft,400u); o.n=s.draw(2)?m:s.draw(m+1); t.outleft-=o.n;  } break;
      case 3: if(s.draw(3)){ o.k=MIN; o.a=data(s,g,go.maxdata); } else if(s.draw(3)==2){ o.k=MVERIFY; o.a=s.bytes(s.draw(3)?t.taglen:1+s.draw(t.taglen)); t.phase=2; } else { o.k=MTAG; o.n=s.draw(3)?t.taglen:1+s.draw(t.taglen); t.phase=2; } break;
      case 4: { unsigned k=s.draw(g.prng?5:4); if(k==4){ o.k=PRNG; o.n=s.len(3*g.unit+8,g.unit); o.n-=o.n%g.multof; } else { o.k=k<2?ENC:DEC; o.a=data(s,g,go.maxdata); o.inplace=s.draw(2); } break; }
      default: { unsigned k=s.draw(10); if(k<4){ o.k=ENC; o.a=data(s,g,go.maxdata); o.inplace=s.draw(2); } else if(k<6){ o.k=DEC; o.a=data(s,g,go.maxdata); o.inplace=s.draw(2); } else if(k<8){ o.k=HEADER; o.a=data(s,g,go.maxdata); } else if(k==8){ o.k=ATAG; o.n=s.draw(3)?t.taglen:1+s.draw(t.taglen); t.phase=2; } else { o.k=AVERIFY; o.a=s.bytes(s.draw(3)?t.taglen:1+s.draw(t.taglen)); t.phase=2; } } }
    p.push_back(o); }
  if(desc) for(auto&o:p){ if(desc->size()>1500){ *desc+=" ..."; break; } if(!desc->empty()) *desc+=" "; *desc+=op_str(o); }
  return p; }

Prog life_prog(Src&s,unsigned cfg,std::string*desc){ GCfg g; cfg_fixed(g,cfg); SlotG sl; Prog p; auto mk=[&](OpK k,bool dat=false){ Op o; o.k=k; if(dat) o.a=data(s,g,0); p.push_back(o); }; 
  for(int k=0;k<3;k++){ Op o; o.k=k?RECREATE:CREATE; params(s,g,o,sl); if(k&&s.draw(2)){ /* more rounds than before: a larger object */ auto r=g.rounds(o.a.size()); unsigned was=p[0].rounds,best=0; for(unsigned q:r) if(q>was&&q<=200&&(!best||s.draw(2))) best=q; if(best) o.rounds=best; } p.push_back(o);
    switch(g.id.fam){ case 1: { Op e; e.k=ENC; e.a=s.bytes(g.b->bs); p.push_back(e); break; } case 2: mk(HIN,true); if(s.draw(2)){ Op e; e.k=HOUT; e.n=std::min(sl.outleft,50u); p.push_back(e); } break; case 3: mk(MIN,true); mk(MIN,true); if(s.draw(2)){ Op e; e.k=MTAG; e.n=sl.taglen; p.push_back(e); } break; case 4: mk(s.draw(2)?ENC:DEC,true); mk(ENC,true); break; default: mk(HEADER,true); mk(ENC,true); if(s.draw(2)){ Op e; e.k=ATAG; e.n=sl.taglen; p.push_back(e); } } }
  mk(DESTROY); if(desc) for(auto&o:p){ if(!desc->empty()) *desc+=" "; *desc+=op_str(o); } return p; }
