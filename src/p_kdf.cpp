// C12: PBKDF2 and scrypt
#include "maccfg.h"
#include "toy.h"
#include "big.h"
#include "emu.h"
static unsigned realmax(const MacCfg&m){ if(m.kind==0) return m.h->maxout; return m.maxtag; } // 0: no fixed length
static ref::Prf prf(const MacCfg&m,unsigned r){ unsigned x=realmax(m); return [&m,r,x](const Bytes&k,const Bytes&d){ return m.model(r,k,d,x,x); }; }
static Bytes pick_pass(Src&s,const MacCfg&m){ return pick_mackey(s,m); }
static void usable(Src&s,MacCfg&m,bool st){ do { pick_mac(s,m,st); st=false; } while(!realmax(m)); }
static Bytes salt_(Src&s,unsigned unit){ unsigned k=s.draw(40); return s.bytes(k==39?s.draw(5000):s.len(3*unit+8,unit)); }
static void c12(Src&s,Ctx&x){ MacCfg m; bool sc=s.chance(1,3);
  if(!sc){ pick_mac(s,m,true); unsigned mx=realmax(m); Bytes pass=pick_pass(s,m),salt=salt_(s,m.block); unsigned r=pick_rounds(s,m.rounds(pass.size()),1,4); unsigned ik=s.draw(100); unsigned it=ik<50?1+s.draw(4):ik<96?1+s.draw(24):ik<99?1+s.draw(300):1+s.draw(3000); size_t n; unsigned nk=s.draw(60); unsigned u=mx?mx:32; if(nk<50) n=s.len(5*u+3,u); else if(nk<57) n=s.draw(20*u); else { n=u*(250+s.draw(20))+s.draw(u); it=1+s.draw(2); }
    x.say("pbkdf2 %s rounds=%u iter=%u pass[%zu]=%s salt[%zu]=%s out_len=%zu",m.name.c_str(),r,it,pass.size(),hex(pass,16).c_str(),salt.size(),hex(salt,16).c_str(),n); x.label("pbkdf2"); if(mx&&n>256*mx) x.label("more than 256 blocks"); if(it>100) x.label("more than 100 iterations");
    Guarded g(n,s.draw(16)),gp(pass),gs(salt); int rc=kripto_pbkdf2(m.d,r,it,gp.p(),pass.size(),gs.p(),salt.size(),g.p(),n); g.check("pbkdf2 output"); eq(gp.get(),pass,"password buffer"); eq(gs.get(),salt,"salt buffer");
    if(!mx){ if(!rc) fail("a MAC without a fixed output length was accepted as PRF"); x.label("PRF without fixed length"); return; }
    if(rc) fail("kripto_pbkdf2 failed (%d)",rc); eq(g.get(),ref::pbkdf2(prf(m,r),pass,salt,it,n),"pbkdf2 output"); x.nt(); }
  else { usable(s,m,true); unsigned mx=realmax(m); Bytes pass=pick_pass(s,m),salt=salt_(s,m.block); unsigned r=pick_rounds(s,m.rounds(pass.size()),1,4); unsigned lg=s.draw(100)<90?s.draw(7):s.draw(11); uint64_t N=1ull<<lg; uint32_t br=s.draw(3)?1+s.draw(8):1+s.draw(20); uint32_t p=s.draw(4)?1+s.draw(4):1+s.draw(40); if(N*br*p>20000){ p=1; if(N*br>20000) br=1+br%4; } size_t n=s.len(4*mx+3,mx);
    x.say("scrypt %s rounds=%u N=%llu r=%u p=%u pass[%zu]=%s salt[%zu]=%s out_len=%zu",m.name.c_str(),r,(unsigned long long)N,br,p,pass.size(),hex(pass,16).c_str(),salt.size(),hex(salt,16).c_str(),n); x.label("scrypt");
    Guarded g(n,s.draw(16)),gp(pass),gs(salt); int rc=kripto_scrypt(m.d,r,N,br,p,gp.p(),pass.size(),gs.p(),salt.size(),g.p(),n); g.check("scrypt output"); eq(gp.get(),pass,"password buffer"); eq(gs.get(),salt,"salt buffer"); if(rc) fail("kripto_scrypt failed (%d)",rc); eq(g.get(),ref::scrypt(prf(m,r),pass,salt,N,br,p,n),"scrypt output"); x.nt(); } }
struct SC { unsigned lgN; uint32_t r,p; bool slow; };
static const SC sc[]={{14,8,1,0},{18,1,1,0},{20,1,1,0},{10,8,16,0},{4,8,64,0},{2,1,1000,0},{1,300,3,0},{0,64,2,0},{6,100,2,0},{12,33,1,0},{16,2,2,0},{5,1,3000,0},{3,2000,1,0},{17,8,1,1},{22,1,1,1},{20,8,1,1},{20,32,1,1},{19,65,1,0},{14,8,20,1},{10,1024,1,1},{8,1,20000,1}};
static const unsigned NLONG=12;
static const unsigned NSC=sizeof sc/sizeof*sc;
static int hm(const char*h){ for(unsigned i=0;i<n_hashes;i++) if(!strcmp(g_hashes[i].name,h)) return i; return 0; }
// the library of a 32-bit processor, run by the emulator (VP_VARIANTS: name=image): sizes have half the bits there
static std::vector<Guest*>& narrow(){ static std::vector<Guest*> v; static bool done; if(done) return v; done=true; const char*e=getenv("VP_VARIANTS"); std::string s=e?e:""; size_t i=0; while(i<s.size()){ size_t j=s.find(';',i); if(j==std::string::npos) j=s.size(); std::string y=s.substr(i,j-i); i=j+1; v.push_back(new Guest(y.substr(y.find('=')+1).c_str())); } return v; }
static const unsigned NNARROW=1500;
static void narrow_scrypt(uint64_t i,Ctx&x){ auto&v=narrow(); if(v.empty()){ x.say("no emulated processor"); return; } Guest&g=*v[i%v.size()]; typedef Guest G; Src s(x.seed*7919+3,i,0,0);
  const uint64_t K=1u<<25; // blocks of 128 bytes in 4 GiB
  uint32_t r=1,p=1; uint64_t n=2; switch(s.draw(4)){ case 0: r=1+s.draw(s.draw(2)?4:70000); p=1+s.draw(4); n=1ull<<s.draw(33); while(n*r<K/16) n*=2; break;
    case 1: r=1+s.draw(s.draw(2)?40:3000); n=1ull<<s.draw(8); p=(K-1)/r-s.draw((K-1)/r<6?1:6); break; // p*r just below its limit
    case 2: { r=1+s.draw(300); uint64_t k=K/r; n=1; while(n*2<=k/2) n*=2; for(unsigned d=s.draw(8);d&&n>2;d--) n/=2; int64_t q=(int64_t)(k-n)-4+(int64_t)s.draw(8); p=q<1?1:(uint32_t)q; while((uint64_t)r*p>=K) p--; break; } // n+p+2 next to what 32 bits can say
    default: r=1+s.draw(200000); p=1+s.draw(K/r); n=1ull<<s.draw(64); }
  unsigned __int128 need=(unsigned __int128)128*r*((unsigned __int128)n+p+2); x.say("%s: scrypt N=%llu r=%u p=%u",g.w64?"64-bit processor":"32-bit processor",(unsigned long long)n,r,p); if(need<(200u<<20)){ x.say(": can be served, skipped"); return; }
  if(!g.w64&&need>>32) x.label("scrypt: more memory than 32 bits can address"); else x.label("scrypt: more memory than the emulated processor has");
  try { Guest::Scope sc(g); uint32_t md5=(uint32_t)g.word(g.sym("kripto_hash_md5")); static std::map<Guest*,uint32_t> macs; uint32_t&m=macs[&g]; if(!m) m=(uint32_t)g.call(g.sym("kripto_mac_hmac"),{G::P(md5)}); size_t live=g.live(); uint32_t pw=g.put("pw",2,0),st=g.put("salt",4,0),o=g.room(16,0);
    int rc=(int)g.call(g.sym("kripto_scrypt"),{G::P(m),G::U(0),G::W(n),G::U(r),G::U(p),G::P(pw),G::U(2),G::P(st),G::U(4),G::P(o),G::P(16)}); g.guard_check(); if(!rc) fail("success reported for %s",!g.w64&&need>>32?"more memory than can be addressed":"more memory than there is"); if(g.live()!=live) fail("memory not released"); }
  catch(std::exception&e){ fail("%s",e.what()); }
  x.nt(); }
static void c12fix(uint64_t i,Ctx&x){
  if(i<NSC){ const SC&c=sc[i]; if(c.slow&&!x.thorough){ x.say("large scrypt parameters: thorough tier"); return; } MacCfg m; mac_cfg(m,hm("sha2_256")); Bytes pass={'p',(uint8_t)i,'w'},salt={'N','a','C','l'}; x.say("scrypt %s N=2^%u r=%u p=%u",m.name.c_str(),c.lgN,c.r,c.p); Bytes o(77); int rc=kripto_scrypt(m.d,0,1ull<<c.lgN,c.r,c.p,cp(pass),pass.size(),cp(salt),salt.size(),o.data(),o.size()); if(rc){ if(c.lgN>=20&&c.r>=32){ x.label("large scrypt: no memory"); return; } fail("kripto_scrypt failed"); } eq(o,ref::scrypt(prf(m,0),pass,salt,1ull<<c.lgN,c.r,c.p,77),"scrypt output"); x.label("large scrypt parameters"); x.nt(); return; }
  i-=NSC; // parameters that cannot be served must be refused
  if(i<6){ static const struct { uint64_t n; uint32_t r,p; } v[]={{1ull<<57,8,1},{1ull<<63,1,1},{1ull<<52,32,1},{1ull<<44,8,1},{1ull<<62,3,1},{1ull<<55,4,2}}; MacCfg m; mac_cfg(m,hm("sha2_256")); x.say("scrypt N=%llu r=%u p=%u cannot be allocated",(unsigned long long)v[i].n,v[i].r,v[i].p); uint8_t o[8]; if(!kripto_scrypt(m.d,0,v[i].n,v[i].r,v[i].p,"p",1,"s",1,o,8)) fail("success reported for parameters that need more memory than exists"); x.label("impossible scrypt parameters"); x.nt(); return; }
  i-=6; // block counters beyond 2^8, 2^16 and 2^24
  if(i<8){ static const struct { int kind; unsigned bs; uint64_t blocks; bool slow; } v[]={{1,1,66000,0},{2,1,66000,0},{1,4,65540,0},{0,0,65540,0},{1,3,131080,0},{1,1,(1u<<24)+70000,0},{0,0,(1u<<24)+20,1},{1,2,(1u<<24)+20,1}}; auto&c=v[i]; if(c.slow&&!x.thorough){ x.say("many blocks: thorough tier"); return; } MacCfg m; if(c.kind==0) mac_cfg(m,hm("md5")); else mac_toy(m,c.kind==2,c.bs); Bytes pass={1,2,3,4,5,6,7,8,(uint8_t)i},salt={9,8,7}; unsigned u=realmax(m); uint64_t nb=c.blocks; x.say("pbkdf2 %s, %llu blocks",m.name.c_str(),(unsigned long long)nb); std::vector<uint8_t> o(nb*u-(u>1)); if(kripto_pbkdf2(m.d,0,1,cp(pass),pass.size(),cp(salt),salt.size(),o.data(),o.size())) fail("kripto_pbkdf2 failed"); auto f=prf(m,0);
    auto chk=[&](uint64_t b){ Bytes s=salt; for(int j=3;j>=0;j--) s.push_back((uint8_t)(b>>(8*j))); Bytes w=f(pass,s); size_t at=(b-1)*u; w.resize(std::min<size_t>(u,o.size()-at)); Bytes g(o.begin()+at,o.begin()+at+w.size()); if(g!=w){ x.say(" block %llu",(unsigned long long)b); eq(g,w,"pbkdf2 block"); } };
    uint64_t step=nb>200000?37:1; for(uint64_t b=1;b<=nb;b+=step) chk(b); for(uint64_t e:{1ull<<8,1ull<<16,2ull<<16,1ull<<24}) for(uint64_t b=e-3;b<=e+300;b++) if(b>=1&&b<=nb) chk(b); chk(nb); x.label("many blocks"); x.nt(); return; }
  i-=8; // more blocks of p*r than can serve as salt: refused; the most that can: served
  if(i<9){ static const struct { uint64_t n; uint32_t r,p; bool ok; } v[]={{2,1u<<13,1u<<13},{2,1u<<25,1},{2,1,1u<<25},{1,1u<<16,1u<<16},{4,3,11184811},{2,1u<<31,2},{2,0xffffffffu,0xffffffffu},{1,11184811,3},{1,1,(1u<<25)-1,1}}; auto&c=v[i]; if(c.ok&&!x.thorough){ x.say("largest r*p: thorough tier"); return; } x.say("scrypt N=%llu r=%u p=%u",(unsigned long long)c.n,c.r,c.p); Bytes o(77),pass={1,2,3},salt={4,5}; if(c.ok){ MacCfg m; mac_cfg(m,hm("blake2b")); if(kripto_scrypt(m.d,0,c.n,c.r,c.p,cp(pass),3,cp(salt),2,o.data(),o.size())){ x.label("large scrypt: no memory"); return; } eq(o,ref::scrypt(prf(m,0),pass,salt,c.n,c.r,c.p,77),"scrypt output"); }
    else if(!kripto_scrypt(fast_mac(),0,c.n,c.r,c.p,cp(pass),3,cp(salt),2,o.data(),o.size())) fail("success reported for more than 2^32 bytes of blocks, which are too long for a salt"); x.label("limit of r*p"); x.nt(); return; }
  i-=9; // derived keys longer than 2^32 bytes
  if(i<2){ unsigned it=1+i; uint8_t*o=big_scratch(); if(!o){ x.say("no address space"); return; } size_t n=(1ull<<32)+(i?FAST_TAG*3+77:12345); x.say("pbkdf2, %zu bytes, %u iterations",n,it); Bytes pass={'k',(uint8_t)i},salt={5,6,7}; memset(o,0xE1,BIG_UNIT); if(kripto_pbkdf2(fast_mac(),0,it,cp(pass),2,cp(salt),3,o,n)) fail("kripto_pbkdf2 failed"); std::vector<uint8_t> t(FAST_TAG),u(FAST_TAG);
    uint64_t nb=(n+FAST_TAG-1)/FAST_TAG; for(uint64_t b=nb-BIG_UNIT/FAST_TAG+2;b<=nb;b++){ uint8_t m[7]={5,6,7,(uint8_t)(b>>24),(uint8_t)(b>>16),(uint8_t)(b>>8),(uint8_t)b}; fast_tag(cp(pass),2,m,7,t.data()); u=t; for(unsigned k=1;k<it;k++){ std::vector<uint8_t> w(FAST_TAG); fast_tag(cp(pass),2,t.data(),FAST_TAG,w.data()); t=w; for(unsigned j=0;j<FAST_TAG;j++) u[j]^=t[j]; } size_t at=(b-1)*FAST_TAG,l=std::min<size_t>(FAST_TAG,n-at); if(memcmp(o+at,u.data(),l)) fail("block %llu of the derived key is wrong",(unsigned long long)b); } x.label("more than 4 GiB"); x.nt(); return; }
  i-=2; if(i<NNARROW) return narrow_scrypt(i,x);
  i-=NNARROW; // many iterations, long passwords and salts
  if(i<NLONG){ static const struct { unsigned it; size_t pn,sn; bool sc,slow; } v[NLONG]={{65537,3,5,0,0},{(1u<<24)+5,4,0,0,0},{2,65539,7,0,0},{2,4,65541,0,0},{1,(1u<<24)+9,4,0,0},{1,4,(1u<<24)+11,0,0},{1,4,(1ull<<31)+70007,0,0},{1,(1ull<<31)+70003,4,0,0},{1,70001,70003,1,0},{1,(1u<<24)+13,(1u<<24)+15,1,0},{(1u<<31)+3,2,2,0,1},{1,0xffffffff,0xffffffff,1,1}}; auto&c=v[i]; if(c.slow&&!x.thorough){ x.say("very many iterations: thorough tier"); return; } const uint8_t*b=big_region(); if(!b){ x.say("no address space"); return; } const uint8_t*pw=b+i*5,*st=b+4099+i; x.say("%s, %u iterations, password of %zu bytes, salt of %zu",c.sc?"scrypt N=4 r=1 p=3":"pbkdf2",c.it,c.pn,c.sn); const unsigned T=QUICK_TAG; Bytes o(c.pn+c.sn>>30?T-1:3*T-1);
    auto pbk=[&](const uint8_t*s,size_t sn,unsigned it,size_t n){ Bytes m(s,s+sn),r; m.resize(sn+4); for(unsigned k=1;r.size()<n;k++){ m[sn+3]=k; Bytes t(T),u,w(T); quick_tag(pw,c.pn,m.data(),sn+4,t.data()); u=t; for(unsigned q=1;q<it;q++){ quick_tag(pw,c.pn,t.data(),T,w.data()); t.swap(w); for(unsigned j=0;j<T;j++) u[j]^=t[j]; } r.insert(r.end(),u.begin(),u.end()); } r.resize(n); return r; };
    if(!c.sc){ if(kripto_pbkdf2(quick_mac(),0,c.it,pw,c.pn,st,c.sn,o.data(),o.size())) fail("kripto_pbkdf2 failed"); eq(o,pbk(st,c.sn,c.it,o.size()),"pbkdf2 output"); }
    else { if(kripto_scrypt(quick_mac(),0,4,1,3,pw,c.pn,st,c.sn,o.data(),o.size())) fail("kripto_scrypt failed"); ref::Prf f=[](const Bytes&k,const Bytes&d){ Bytes w(QUICK_TAG); quick_tag(k.data(),k.size(),d.data(),d.size(),w.data()); return w; }; eq(o,ref::scrypt(f,Bytes(pw,pw+c.pn),Bytes(st,st+c.sn),4,1,3,o.size()),"scrypt output"); }
    x.label("many iterations, long passwords or salts"); x.nt(); return; }
  i-=NLONG; if(i<mac_variants()){ MacCfg m; mac_cfg(m,i); unsigned u=realmax(m); if(!u) return; x.say("pbkdf2 %s, every output length to three blocks, iterations 1..5",m.name.c_str()); Bytes pass(m.b?std::min(m.maxkey,16u):24,0x61),salt={1,2,3}; for(unsigned it=1;it<=5;it++){ Bytes w=ref::pbkdf2(prf(m,0),pass,salt,it,3*u+1); for(unsigned n=0;n<=3*u+1;n++){ Guarded g(n); if(kripto_pbkdf2(m.d,0,it,pass.data(),pass.size(),salt.data(),3,g.p(),n)) fail("kripto_pbkdf2 failed"); g.check("output"); Bytes e(w.begin(),w.begin()+n); if(g.get()!=e){ x.say(" iter %u out_len %u",it,n); eq(g.get(),e,"pbkdf2 output"); } } } x.label("all output lengths"); x.nt(); } }
static Reg r12({"C12","two thirds PBKDF2, one third scrypt; PRF (every MAC the library builds, and OMAC/XCBC over a custom cipher of any block size) enumerated over the case index; password, salt, iterations, N, r, p and output length drawn, compared with an independent model. Systematic part: large N/r/p, impossible parameters (also on emulated 32-bit processors, next to every limit of 32-bit sizes), block counters beyond 2^8, 2^16 and 2^24, r*p at its limit, derived keys above 4 GiB, up to 2^24 (thorough: 2^31) iterations, passwords and salts up to 2^31 bytes, every output length to three PRF blocks per PRF. Non-trivial: cases whose PRF has a fixed length.",24000,1000000,c12,NSC+6+8+9+2+NNARROW+NLONG+160,c12fix,900,"reference model in /verif/ref"});
