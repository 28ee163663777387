// C23: what key setup, hashing and key derivation leave behind on the stack
#include "mgen.h"
#include "variants.h"
#include "common.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <unistd.h>
#include <unordered_map>
#include "ownstack.h"

static const size_t SS=1u<<20, ARGS=64; static const uint8_t PRE=0xC3; static uint8_t*g_stk; static size_t g_lo=0;
static void setup(Hook*h){ if(h->base) return; h->cap=48u<<20; h->base=(uint8_t*)mmap(0,h->cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); h->rel_cap=48u<<20; h->rel=(uint8_t*)mmap(0,h->rel_cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(h->base==MAP_FAILED||h->rel==MAP_FAILED) fail("harness: no memory"); }
static void stack_init(){ if(g_stk) return; uint8_t*p=(uint8_t*)mmap(0,SS+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) fail("harness: no memory"); mprotect(p,4096,PROT_NONE); g_stk=p+4096; memset(g_stk,PRE,SS); }
struct Lib { void*h; template<class T=void*> T sym(const char*n){ void*p=dlsym(h,n); if(!p) fail("harness: no symbol %s",n); return (T)p; } };
struct Img { Bytes stk,heap; std::vector<std::pair<const char*,Bytes>> sec; const char*what; bool setup; Bytes other; /* memory of an object in the state the one-shot ended in */ };
// calls and keeps what is left on the stack
static uint64_t call(Img&m,void*fn,std::vector<uint64_t> a,const Hook*h){ stack_init(); a.resize(11); uint64_t r=vp_on_stack(g_stk+SS,fn,a.data()); const uint64_t pat=0x0101010101010101ull*PRE; size_t lo=SS-8; { const uint64_t*w=(const uint64_t*)g_stk; size_t i=0; while(i<SS/8&&w[i]==pat) i++; lo=i*8; } m.stk.assign(g_stk+lo,g_stk+SS-ARGS); memset(g_stk+lo,PRE,SS-lo); m.heap.assign(h->base,h->base+h->used); return r; }
// one life of one object (and the one-shots), all lengths public, contents secret
struct Life { GCfg g; unsigned rounds,rounds2,n,n2,t,t2; /* t: how much of a tag is taken */ size_t kl,kl2; std::vector<size_t> ml; Bytes iv,iv2; bool all,kdf; uint64_t N; unsigned r,p,iter; size_t out; };
static std::vector<Img> live(Lib&L,Hook*h,const Life&l,void*d,Src sec){ std::vector<Img> v; h->reset(); h->arena=1; typedef uint64_t U; const GCfg&g=l.g; const bool native=g.name.find('(')==std::string::npos;
  static uint8_t*buf=(uint8_t*)mmap(0,1<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); uint8_t*K=buf,*I=buf+65536,*M=buf+2*65536,*O=buf+4*65536; Bytes key; std::vector<std::pair<const char*,Bytes>> now;
  auto setkey=[&](size_t n){ key=sec.random(n); memcpy(K,key.data(),n); now.clear(); if(n) now.push_back({"key",key}); }; auto setmsg=[&](size_t n){ Bytes m=sec.random(n); memcpy(M,m.data(),n); if(g.id.fam==2||g.id.fam==3) now.push_back({"message",m}); }; auto setiv=[&](const Bytes&b){ if(b.size()) memcpy(I,b.data(),b.size()); };
  auto C=[&](const char*w,const char*f,std::vector<U> a,bool su=false)->U{ v.emplace_back(); Img&m=v.back(); m.what=w; m.setup=su; m.sec=now; return call(m,L.sym(f),a,h); }; U o=0; size_t mi=0; auto ML=[&]{ return l.ml[mi++%l.ml.size()]; };
  setkey(g.id.fam==2?0:l.kl); setiv(l.iv); switch(g.id.fam){
   case 1: o=C("kripto_block_create","kripto_block_create",{(U)d,l.rounds,(U)K,l.kl},true); if(!o) break; for(int k=0;k<2;k++){ setmsg(g.unit); C("kripto_block_encrypt","kripto_block_encrypt",{o,(U)M,(U)O}); setmsg(g.unit); C("kripto_block_decrypt","kripto_block_decrypt",{o,(U)M,(U)O}); if(!k){ setkey(l.kl2); o=C("kripto_block_recreate","kripto_block_recreate",{o,l.rounds2,(U)K,l.kl2},true); if(!o) break; } } if(o) C("kripto_block_destroy","kripto_block_destroy",{o}); break;
   case 2: { o=C("kripto_hash_create","kripto_hash_create",{(U)d,l.rounds,(U)I,l.iv.size(),l.n}); if(!o) break; for(int k=0;k<2;k++){ size_t n=ML(); setmsg(n); C("kripto_hash_input","kripto_hash_input",{o,(U)M,n}); n=ML(); setmsg(n); C("kripto_hash_input","kripto_hash_input",{o,(U)M,n}); C("kripto_hash_output","kripto_hash_output",{o,(U)O,k?l.n2:l.n}); if(!k){ setiv(l.iv2); o=C("kripto_hash_recreate","kripto_hash_recreate",{o,l.rounds2,(U)I,l.iv2.size(),l.n2}); if(!o) break; } } if(o) C("kripto_hash_destroy","kripto_hash_destroy",{o}); now.clear(); size_t n=ML(); setmsg(n); o=C("kripto_hash_create","kripto_hash_create",{(U)d,l.rounds,(U)I,l.iv2.size(),l.n2}); if(!o) break; C("kripto_hash_input","kripto_hash_input",{o,(U)M,n}); C("kripto_hash_output","kripto_hash_output",{o,(U)O,l.n2}); Bytes st=v.back().heap; C("kripto_hash_destroy","kripto_hash_destroy",{o}); C("kripto_hash_all","kripto_hash_all",{(U)d,l.rounds,(U)I,l.iv2.size(),(U)M,n,(U)O,l.n2}); v.back().other=st; break; }
   case 3: { o=C("kripto_mac_create","kripto_mac_create",{(U)d,l.rounds,(U)K,l.kl,l.n}); if(!o) break; for(int k=0;k<2;k++){ size_t n=ML(); setmsg(n); C("kripto_mac_input","kripto_mac_input",{o,(U)M,n}); Bytes m1(M,M+n); n=ML(); setmsg(n); C("kripto_mac_input","kripto_mac_input",{o,(U)M,n}); Bytes in; if(g.id.kind==0&&key.size()<=g.unit){ in=Bytes(g.unit,0x36); for(size_t i=0;i<key.size();i++) in[i]^=key[i]; in.insert(in.end(),m1.begin(),m1.end()); in.insert(in.end(),M,M+n); in=g.m.h->run(k?l.rounds2:l.rounds,Bytes(),in,k?l.n2:l.n,k?l.n2:l.n); } if(k) C("kripto_mac_verify","kripto_mac_verify",{o,(U)O,l.t2}); else C("kripto_mac_tag","kripto_mac_tag",{o,(U)O,l.t}); if(in.size()) v.back().sec.push_back({"inner digest",in}); if(!k){ setkey(l.kl2); o=C("kripto_mac_recreate","kripto_mac_recreate",{o,l.rounds2,(U)K,l.kl2,l.n2}); if(!o) break; } } if(o) C("kripto_mac_destroy","kripto_mac_destroy",{o});
     if(l.all){ setkey(l.kl); size_t n=ML(); setmsg(n); C("kripto_mac_all","kripto_mac_all",{(U)d,l.rounds,(U)K,l.kl,(U)M,n,(U)O,l.n}); } if(l.kdf){ Bytes salt(8,0x31); setiv(salt); setkey(l.kl); C("kripto_pbkdf2","kripto_pbkdf2",{(U)d,l.rounds,l.iter,(U)K,l.kl,(U)I,8,(U)O,l.out}); if(g.maxout>=16){ setkey(l.kl); C("kripto_scrypt","kripto_scrypt",{(U)d,l.rounds,l.N,l.r,l.p,(U)K,l.kl,(U)I,8,(U)O,l.out}); } } break; }
   case 4: { o=C("kripto_stream_create","kripto_stream_create",{(U)d,l.rounds,(U)K,l.kl,(U)I,l.iv.size()}); if(!o) break; for(int k=0;k<2;k++){ size_t n=ML(); n-=n%g.multof; setmsg(n); C("kripto_stream_encrypt","kripto_stream_encrypt",{o,(U)M,(U)O,n}); if(native){ Bytes ks(n); for(size_t i=0;i<n;i++) ks[i]=M[i]^O[i]; v.back().sec.push_back({"keystream",ks}); } C("kripto_stream_decrypt","kripto_stream_decrypt",{o,(U)M,(U)O,n}); if(!k){ setkey(l.kl2); setiv(l.iv2); o=C("kripto_stream_recreate","kripto_stream_recreate",{o,l.rounds2,(U)K,l.kl2,(U)I,l.iv2.size()}); if(!o) break; } } if(o) C("kripto_stream_destroy","kripto_stream_destroy",{o}); break; }
   default: { o=C("kripto_ae_create","kripto_ae_create",{(U)d,l.rounds,(U)K,l.kl,(U)I,l.iv.size(),l.n}); if(!o) break; for(int k=0;k<2;k++){ size_t n=ML(); n-=n%g.multof; setmsg(n); C("kripto_ae_encrypt","kripto_ae_encrypt",{o,(U)M,(U)O,n}); C("kripto_ae_header","kripto_ae_header",{o,(U)M,n}); C("kripto_ae_tag","kripto_ae_tag",{o,(U)O,k?l.t2:l.t}); if(!k){ setkey(l.kl2); setiv(l.iv2); o=C("kripto_ae_recreate","kripto_ae_recreate",{o,l.rounds2,(U)K,l.kl2,(U)I,l.iv2.size(),l.n2}); if(!o) break; } } if(o) C("kripto_ae_destroy","kripto_ae_destroy",{o}); break; } }
  h->arena=0; return v; }
static uint64_t w8(const uint8_t*p){ uint64_t v; memcpy(&v,p,8); return v; }
struct Match { size_t n=0,at=0,off=0; };
// longest stretch of the stack that also occurs in `what`, at least 8 bytes
static Match longest(const Bytes&stk,const std::vector<std::pair<size_t,size_t>>&runs,const Bytes&what,const Bytes*mask){ Match best; if(what.size()<8) return best; std::unordered_multimap<uint64_t,size_t> ix; std::unordered_map<uint64_t,unsigned> cnt; unsigned run=0; for(size_t i=0;i<what.size();i++){ run=mask&&!(*mask)[i]?0:run+1; if(run>=8){ uint64_t k=w8(&what[i-7]); if(cnt[k]++<4) ix.emplace(k,i-7); } } if(ix.empty()) return best;
  for(auto&r:runs) for(size_t j=r.first;j+8<=r.first+r.second;j++){ auto e=ix.equal_range(w8(&stk[j])); for(auto q=e.first;q!=e.second;++q){ size_t n=8,o=q->second; while(j+n<r.first+r.second&&o+n<what.size()&&stk[j+n]==what[o+n]) n++; if(n>best.n) best.n=n,best.at=j,best.off=o; } } return best; }
static const char*const form_name[]={"as given","in 16-bit words","in 32-bit words","in 64-bit words","in reverse"};
static const size_t CONTENT=16, SCHED=24, RUN=32;
// the round functions of these keep their working state in variables (which an array may replace), and it ends as output or chaining state
static size_t work(const GCfg&g){ static const struct { const char*s; size_t n; } W[]={{"chacha",64},{"salsa",64},{"tiger",24},{"skein256",32},{"skein512",64},{"skein1024",128},{"threefish256",32},{"threefish512",64},{"threefish1024",128}}; std::string n=g.name+(g.id.fam==3&&g.id.kind==0?g.m.h->name:""); size_t r=0; for(auto&w:W) if(n.find(w.s)!=std::string::npos) r=std::max(r,w.n); return r; }
static void judge(const Life&l,std::vector<std::vector<Img>>&v,Ctx&x,const char*vn){ static FILE*meas=getenv("VP_MEASURE")?fopen((getenv("VP_MEASURE")+std::to_string(getpid())).c_str(),"a"):0; for(size_t k=1;k<v.size();k++) if(v[k].size()!=v[0].size()) fail("harness: the calls differ");
  for(size_t s=0;s<v[0].size();s++){ Img&a=v[0][s]; size_t len=a.stk.size(); for(auto&o:v) len=std::max(len,o[s].stk.size()); for(auto&o:v) o[s].stk.insert(o[s].stk.begin(),len-o[s].stk.size(),PRE); Bytes dep(len); for(auto&o:v) for(size_t i=0;i<len;i++) dep[i]|=o[s].stk[i]!=a.stk[i]; std::vector<std::pair<size_t,size_t>> runs; size_t big=0,dense=0; { size_t c=0; for(size_t i=0;i<len;i++){ c+=dep[i]; if(i>=128) c-=dep[i-128]; dense=std::max(dense,c); } } for(size_t i=0;i<len;){ if(!dep[i]){ i++; continue; } size_t j=i; while(j<len&&dep[j]) j++; if(j-i>=8) runs.push_back({i,j-i}); big=std::max(big,j-i); i=j; }
    x.label("calls"); if(big) x.label("calls leaving secret-dependent bytes");
    for(auto&sec:a.sec) for(int f=0;f<5;f++){ size_t w=f==1?2:f==2?4:f==3?8:1; for(size_t sh=0;sh<w;sh++){ Bytes q; if(f==0) q=sec.second; else if(f==4) q.assign(sec.second.rbegin(),sec.second.rend()); else for(size_t i=sh;i+w<=sec.second.size();i+=w) for(size_t j=0;j<w;j++) q.push_back(sec.second[i+w-1-j]); Match m=longest(a.stk,runs,q,0); if(meas&&m.n) fprintf(meas,"MEAS content %s %s %s %zu\n",l.g.name.c_str(),a.what,sec.first,m.n); if(m.n>=CONTENT&&!(m.n<=work(l.g)&&strcmp(sec.first,"key")&&strcmp(sec.first,"message"))) fail("%s: %s, %s leaves %zu bytes of the %s (%s) on the stack, %zu bytes below the caller's frame",vn,l.g.name.c_str(),a.what,m.n,sec.first,form_name[f],len-m.at+ARGS); } }
    size_t hl=a.heap.size(); Bytes hm(hl); for(auto&o:v) for(size_t i=0;i<hl&&i<o[s].heap.size();i++) hm[i]|=o[s].heap[i]!=a.heap[i]; Match m=longest(a.stk,runs,a.heap,&hm); if(meas&&m.n>=8) fprintf(meas,"MEAS sched %s %s - %zu\n",l.g.name.c_str(),a.what,m.n); if(a.setup?m.n>=16:strstr(a.what,"create")&&m.n>=SCHED&&m.n>work(l.g)) fail("%s: %s, %s leaves %zu bytes of the object's secret state on the stack, %zu bytes below the caller's frame",vn,l.g.name.c_str(),a.what,m.n,len-m.at+ARGS);
    if(a.other.size()){ Bytes om(a.other.size()); for(auto&o:v) for(size_t i=0;i<om.size()&&i<o[s].other.size();i++) om[i]|=o[s].other[i]!=a.other[i]; m=longest(a.stk,runs,a.other,&om); if(meas&&m.n>=8) fprintf(meas,"MEAS other %s %s - %zu\n",l.g.name.c_str(),a.what,m.n); if(m.n>=SCHED&&m.n>work(l.g)) fail("%s: %s, %s leaves %zu bytes of its chaining state or buffer on the stack",vn,l.g.name.c_str(),a.what,m.n); }
    if(a.setup&&dense>=40) fail("%s: %s, %s leaves %zu secret-dependent bytes within 128 on the stack",vn,l.g.name.c_str(),a.what,dense); if(meas) fprintf(meas,"MEAS dense %s %s - %zu\n",l.g.name.c_str(),a.what,dense); if(meas) fprintf(meas,"MEAS run %s %s - %zu\n",l.g.name.c_str(),a.what,big); if(a.setup&&big>=RUN) fail("%s: %s, %s leaves a stretch of %zu secret-dependent bytes on the stack",vn,l.g.name.c_str(),a.what,big); 
    if(l.g.id.fam==2){ const std::string&n=l.g.name; if((n=="md5"||n=="sha1"||n=="sha2_256"||n=="sha2_512")&&big>=l.g.unit) fail("%s: %s, %s leaves a stretch of %zu secret-dependent bytes on the stack, as much as a message block",vn,n.c_str(),a.what,big); } } }
static void go(Src&s,const Life&l,Ctx&x){ std::vector<Src> sec; for(int k=0;k<4;k++) sec.emplace_back(s.draw(1ull<<40),k,0,nullptr); for(auto&vr:variants()){ Hook*h=(Hook*)vr.hook(); setup(h); Lib L{vr.h}; h->arena=0; void*d=L.sym<void*(*)(const Cfg*)>("vx_desc")(&l.g.id); if(!d) fail("harness: no descriptor"); std::vector<std::vector<Img>> v; for(auto&c:sec) v.push_back(live(L,h,l,d,c)); judge(l,v,x,vr.name.c_str()); } x.nt(); x.label(l.g.id.fam==1?"block cipher":l.g.id.fam==2?"hash":l.g.id.fam==3?"MAC":l.g.id.fam==4?"stream":"AE"); }
static void fill(Src&s,Life&l){ GCfg&g=l.g; bool mac=g.id.fam==3&&!g.m.b; auto kl=[&]()->size_t{ size_t n=g.id.fam==2?0:mac?1+s.draw(s.draw(3)?2*g.unit+4:400):pick_keylen(s,g.maxkey,300); if(g.id.fam!=2&&n<g.minkey) n=g.minkey; return n; }; l.kl=kl(); l.kl2=kl(); auto rd=[&](size_t k){ unsigned r=pick_rounds(s,g.rounds(k),1,3); return r<6?0:r; }; l.rounds=rd(l.kl); l.rounds2=s.draw(3)?rd(l.kl2):l.kl2==l.kl?l.rounds:0; bool kec=g.id.fam==2&&g.name[0]=='k'; auto on=[&]()->unsigned{ if(!g.maxout) return 0; if(kec) return 1+s.draw(g.h->blocksize==200?99:49); return s.draw(2)?g.maxout:1+s.draw(g.maxout); }; l.n=on(); l.n2=on(); if(g.id.fam==2&&g.maxout) { l.n=std::min(l.n,g.maxout); } l.t=s.draw(2)?l.n:l.n?1+s.draw(l.n):0; l.t2=s.draw(2)?l.n2:l.n2?1+s.draw(l.n2):0; auto iv=[&]{ return g.maxiv?s.bytes(s.draw(3)?std::min(g.maxiv,g.unit):s.draw(std::min(g.maxiv,300u)+1)):Bytes(); }; l.iv=iv(); l.iv2=iv(); for(int i=0;i<5;i++) l.ml.push_back(s.len(4*g.unit+8,g.unit)); l.all=true; l.kdf=!(g.id.fam==3&&((g.id.kind==0&&!g.m.h->maxout)||(g.id.kind==3&&g.m.nw==0))); l.N=2ull<<s.draw(3); l.r=1+s.draw(2); l.p=1+s.draw(2); l.iter=1+s.draw(3); l.out=1+s.draw(80); }
static void say(const Life&l,Ctx&x){ x.say("%s rounds=%u,%u key=%zu,%zu out=%u,%u iv=%zu,%zu messages",l.g.name.c_str(),l.rounds,l.rounds2,l.kl,l.kl2,l.n,l.n2,l.iv.size(),l.iv2.size()); for(size_t m:l.ml) x.say(" %zu",m); }
static void c23(Src&s,Ctx&x){ Life l; cfg_pick(s,l.g,1+s.strat(5)); if(l.g.id.a>=1000||(l.g.id.fam==5&&l.g.id.kind==1&&l.g.id.b>=1000)){ l.g.~GCfg(); new(&l.g) GCfg(); cfg_fixed(l.g,s.draw(n_blocks)); } fill(s,l); say(l,x); go(s,l,x); }
static void c23fix(uint64_t i,Ctx&x){ Src s(x.seed*77777+23,i,0,nullptr); Life l; cfg_fixed(l.g,i%cfg_count()); fill(s,l); say(l,x); go(s,l,x); }
static Reg r23({"C23","lives of one object (create, use, recreate, use, destroy) and the one-shots of every algorithm with the library built by gcc -O0, every call made on a stack of the harness's own; each life four times with different keys and messages on an allocator with reproducible addresses, so that the stack bytes that depend on them are known. They must hold no 16 bytes of the current key, of the message last given to a hash or MAC (as given, in words or reversed), of the keystream of a native stream cipher or of the inner digest of HMAC; no 16 bytes of a block cipher's key schedule after key setup (24 of the object's secret state after any other create); no run of 32 and no 40 within 128 secret-dependent bytes after block-cipher key setup; no 24 bytes of the final state after a one-shot hash; for MD5, SHA-1 and SHA-2 no run as long as a message block. Systematic part: every configuration twice. Non-trivial: every life.",20000,500000,c23,543*2,c23fix,120,"the build is gcc -O0, where only what the source stores in memory is stored; what an optimiser spills and what stays in registers is not the source's doing"});
