// C06, C07: message authentication codes
#include "maccfg.h"
#include "toy.h"
#include "big.h"
static kripto_mac* mcreate(const MacCfg&m,unsigned r,const Bytes&k,unsigned tl){ kripto_mac*q=kripto_mac_create(m.d,r,k.data(),k.size(),tl); if(!q) fail("kripto_mac_create failed"); return q; }
static void feed(kripto_mac*q,const Bytes&m,const std::vector<size_t>&sp){ size_t p=0; for(size_t c:sp){ kripto_mac_input(q,cp(m)+p,c); p+=c; } }
static size_t pick_msg(Src&s,const MacCfg&m){ unsigned k=s.draw(200); return k==199?s.draw(70000):k>=195?s.draw(5000):s.len(5*m.block+9,m.block); }
static kripto_mac* mobj(Src&s,Ctx&x,const MacCfg&m,unsigned r,const Bytes&key,unsigned tl){ if(!aged(s,x)) return mcreate(m,r,key,tl); Bytes k=pick_mackey(s,m); unsigned t2=pick_taglen(s,m); MacP q(mcreate(m,pick_rounds(s,m.rounds(k.size()),1,3),k,t2)); if(s.draw(3)){ Bytes b=s.bytes(s.len(2*m.block+3,m.block)); kripto_mac_input(q.get(),cp(b),b.size()); } if(s.draw(2)){ Bytes o(t2); kripto_mac_tag(q.get(),o.data(),t2); } kripto_mac*n=kripto_mac_recreate(q.get(),r,key.data(),key.size(),tl); q.release(); if(!n) fail("kripto_mac_recreate failed"); return n; }
static void c06(Src&s,Ctx&x){ MacCfg m; pick_mac(s,m,true); Bytes key=pick_mackey(s,m); unsigned r=pick_rounds(s,m.rounds(key.size()),1,3); unsigned tl=pick_taglen(s,m); unsigned n=s.chance(1,4)?1+s.draw(tl):tl; Bytes msg=s.bytes(pick_msg(s,m));
  x.say("%s rounds=%u key[%zu]=%s tag_len=%u taken=%u msg[%zu]=%s",m.name.c_str(),r,key.size(),hex(key,20).c_str(),tl,n,msg.size(),hex(msg,20).c_str()); static const char*kn[]={"HMAC","OMAC","XCBC","native"}; x.label(kn[m.kind]); if(n<tl) x.label("tag taken shorter than created"); if(m.kind==0&&key.size()>m.block) x.label("HMAC key longer than a block");
  Bytes want=m.model(r,key,msg,tl,n),o(n); if(n==tl&&s.draw(2)){ Guarded g(n); if(kripto_mac_all(m.d,r,key.data(),key.size(),cp(msg),msg.size(),g.p(),n)) fail("kripto_mac_all failed"); g.check("mac_all tag"); eq(g.get(),want,"mac_all"); }
  else { MacP q(mobj(s,x,m,r,key,tl)); auto sp=s.split(msg.size(),m.block,1); feed(q.get(),msg,sp); Guarded g(n); kripto_mac_tag(q.get(),g.p(),n); g.check("tag"); eq(g.get(),want,"tag"); } x.nt(); }
// systematic: OMAC and XCBC at every block size (custom cipher); every message length to 3 blocks per library MAC; then the NIST HMAC-SHA3 vector
static const unsigned C06L=30;
static void c06fix(uint64_t i,Ctx&x){ if(i<255){ unsigned bs=i+1; for(int xc=0;xc<2;xc++){ MacCfg m; mac_toy(m,xc,bs); x.say("%s",m.name.c_str()); for(int v=0;v<6;v++){ Bytes key(1+(bs*7+v*31)%255); for(size_t j=0;j<key.size();j++) key[j]=j*37+v*11+bs; for(size_t len:{(size_t)0,(size_t)1,(size_t)bs-1,(size_t)bs,(size_t)bs+1,(size_t)2*bs,(size_t)3*bs-(bs>2?2:0)}){ Bytes msg(len); for(size_t j=0;j<len;j++) msg[j]=j*j+v; Bytes o(bs); if(kripto_mac_all(m.d,0,key.data(),key.size(),cp(msg),len,o.data(),bs)) fail("mac_all failed"); x.label("custom block sizes"); Bytes w=m.model(0,key,msg,bs,bs); if(o!=w){ x.say(" key[%zu] msg[%zu]",key.size(),len); eq(o,w,"tag"); } } } } x.nt(); return; }
  i-=255; if(i<mac_variants()){ MacCfg m; mac_cfg(m,i); x.say("%s, every message length to 3 blocks",m.name.c_str()); Bytes key(m.b?std::min(m.maxkey,16u):std::min(m.block+1,64u)),msg; for(size_t j=0;j<key.size();j++) key[j]=j*91+5; for(unsigned n=0;n<=3*m.block+1;n++){ Bytes o(m.maxtag); if(kripto_mac_all(m.d,0,key.data(),key.size(),cp(msg),n,o.data(),m.maxtag)) fail("mac_all failed"); Bytes w=m.model(0,key,msg,m.maxtag,m.maxtag); if(o!=w){ x.say(" length %u",n); eq(o,w,"tag"); } msg.push_back(n*29+7); } x.nt(); return; }
  i-=mac_variants(); if(i<n_hashes){ MacCfg m; mac_cfg(m,i); x.say("%s, every key length to 2 blocks",m.name.c_str()); Bytes key,msg(77,0x5a); for(unsigned n=1;n<=2*m.block+3;n++){ key.push_back(n*57+1); unsigned tl=n%2?m.maxtag:std::max(1u,m.maxtag/2); Bytes o(tl); if(kripto_mac_all(m.d,0,key.data(),n,cp(msg),msg.size(),o.data(),tl)) fail("mac_all failed"); Bytes w=m.model(0,key,msg,tl,tl); if(o!=w){ x.say(" key length %u tag %u",n,tl); eq(o,w,"tag"); } } x.nt(); return; }
  i-=n_hashes; // long keys
  { static const size_t kl[]={65537,(1u<<24)+13,(1u<<28)+21}; unsigned w=i/3; const unsigned hm[]={0,4,9,11,n_hashes-1}; if(w<5+n_macs){ unsigned v=w<5?hm[w]:mac_variants()-n_macs+w-5; if(i%3==2&&!x.thorough){ x.say("thorough tier"); return; } MacCfg m; mac_cfg(m,v); size_t n=kl[i%3]+v; unsigned tl=std::min(m.maxtag,16u); const uint8_t*b=big_region(); if(!b) return; x.say("%s, key of %zu bytes",m.name.c_str(),n); unsigned r=w%2?0:m.rounds(0).empty()?0:m.rounds(0)[0]; Bytes key(b+v,b+v+n),msg(77,0x5a),o(tl); MacP q(mcreate(m,r,key,tl)); kripto_mac_input(q.get(),msg.data(),msg.size()); kripto_mac_tag(q.get(),o.data(),tl); Bytes want=m.model(r,key,msg,tl,tl); eq(o,want,"tag with a long key"); q.reset(kripto_mac_recreate(q.release(),r,key.data(),n,tl)); if(!q) fail("kripto_mac_recreate failed"); kripto_mac_input(q.get(),msg.data(),msg.size()); kripto_mac_tag(q.get(),o.data(),tl); eq(o,want,"tag after recreation with a long key"); x.label("long key"); x.nt(); return; } i-=3*(5+n_macs); }
  if(i==0){ // HMAC-SHA3-256 of the NIST example set: block length is the rate (136)
    static const char t[]="Sample message for keylen<blocklen"; uint8_t key[32],o[32]; for(int j=0;j<32;j++) key[j]=j; MacCfg m; mac_cfg(m,12); x.say("%s, NIST example key 00..1f",m.name.c_str()); if(kripto_mac_all(m.d,0,key,32,t,sizeof t-1,o,32)) fail("mac_all failed"); static const uint8_t w[]={0x4f,0xe8,0xe2,0x02,0xc4,0xf0,0x58,0xe8,0xdd,0xdc,0x23,0xd8,0xc3,0x4e,0x46,0x73,0x43,0xe2,0x35,0x55,0xe2,0x4f,0xc2,0xf0,0x25,0xd5,0x98,0xf5,0x58,0xf6,0x72,0x05}; Bytes got(o,o+32); if(got==Bytes(w,w+32)) return;
    if(got==m.model(0,Bytes(key,key+32),Bytes(t,t+sizeof t-1),32,32)) x.known("hmac-keccak-block-length","HMAC over SHA-3/Keccak pads the key to the whole state (200 bytes) instead of the rate (FIPS 202): the tag differs from the published HMAC-SHA3-256 example"); else eq(got,Bytes(w,w+32),"HMAC-SHA3-256 NIST example"); x.nt(); } }
static Reg r06({"C06","MAC construction x primitive enumerated over the case index (HMAC over all hashes, OMAC and XCBC over all ciphers and over a custom cipher of any block size, the native MACs); key, rounds, tag length, message drawn and compared with an independent model. Systematic part: all block sizes 1..255, all message lengths to three blocks, all HMAC key lengths to two blocks, keys longer than 2^16 and 2^24 bytes (thorough: 2^28). Non-trivial: every case.",1200000,12000000,c06,256+200+C06L,c06fix,300,"reference model in /verif/ref; HMAC over Keccak/SHA-3 is compared with the block length the library declares (see known finding)"});

struct MS { MacP q; MacCfg*m; unsigned r,tl; Bytes key,msg; bool done=false; };
static void c07(Src&s,Ctx&x){ std::vector<MacCfg> cf(1+s.draw(2)); for(size_t i=0;i<cf.size();i++) pick_mac(s,cf[i],i==0); std::vector<MS> v(1+s.draw(3)); unsigned fed=0,re=0,forge=0;
  auto params=[&](MS&a){ a.key=pick_mackey(s,*a.m); a.r=pick_rounds(s,a.m->rounds(a.key.size()),1,4); a.tl=pick_taglen(s,*a.m); a.msg.clear(); a.done=false; x.say(" %s r=%u key[%zu] tl=%u",a.m->name.c_str(),a.r,a.key.size(),a.tl); };
  auto all=[&](MS&a,const Bytes&key,const Bytes&msg){ Bytes o(a.tl); if(kripto_mac_all(a.m->d,a.r,key.data(),key.size(),cp(msg),msg.size(),o.data(),a.tl)) fail("mac_all failed"); return o; };
  auto fin=[&](MS&a){ a.done=true; Bytes w=all(a,a.key,a.msg); unsigned k=s.draw(4); unsigned n=s.chance(1,4)?1+s.draw(a.tl):a.tl; Bytes t(w.begin(),w.begin()+n);
    if(k<=1){ Guarded g(n,s.draw(8)); if(a.m->kind&&k==1&&n>1){ x.say(" tag in pieces"); x.label("tag in pieces"); unsigned o=0; while(o<n){ unsigned c=s.draw(4)?1+s.draw(n-o):s.draw(3)%(n-o+1); kripto_mac_tag(a.q.get(),g.p()+o,c); o+=c; g.check("tag"); } } else { kripto_mac_tag(a.q.get(),g.p(),n); x.say(" tag"); } g.check("tag"); eq(g.get(),t,"tag after this history differs from mac_all"); }
    else if(k==2){ Guarded g(t,s.draw(8)); x.say(" verify genuine"); if(!kripto_mac_verify(a.q.get(),g.p(),n)) fail("verify rejects the correct tag"); eq(g.get(),t,"tag buffer altered by verify"); x.label("verify genuine"); }
    else { forge++; Bytes f=t; unsigned how=s.draw(3); if(how==0){ unsigned b=s.draw(8*n); f[b/8]^=1<<(b%8); x.say(" verify with tag bit %u flipped",b); } else if(how==1){ Bytes d=s.bytes(n); bool nz=false; for(size_t j=0;j<n;j++){ nz|=d[j]; f[j]^=d[j]; } if(!nz) f[n-1]^=0x80; x.say(" verify with tag xor %s",hex(d).c_str()); } else { unsigned p=s.draw(n),c=1+s.draw(255); f[p]^=c; unsigned p2=s.draw(n); if(p2!=p) f[p2]^=c; x.say(" verify with tag bytes %u,%u xor %02x",p,p2,c); } x.label("verify modified tag"); Guarded g(f,s.draw(8)); if(kripto_mac_verify(a.q.get(),g.p(),n)) fail("verify accepts a modified tag (correct %s, given %s)",hex(t).c_str(),hex(f).c_str()); } };
  for(auto&a:v){ a.m=&cf[s.draw(cf.size())]; if(&a==&v[0]) a.m=&cf[0]; x.say(" [%zu]",(size_t)(&a-&v[0])); params(a); a.q.reset(mcreate(*a.m,a.r,a.key,a.tl)); if(kripto_mac_getdesc(a.q.get())!=a.m->d) fail("descriptor"); }
  unsigned n=2+s.draw(12);
  for(unsigned i=0;i<n;i++){ MS&a=v[s.draw(v.size())]; x.say("; [%zu]",(size_t)(&a-&v[0])); unsigned k=s.draw(10), B=a.m->block;
    if(k<6&&!a.done){ size_t left=B-a.msg.size()%B,c; switch(s.draw(7)){ case 0: c=0; break; case 1: c=left; break; case 2: c=left-1; break; case 3: c=left+1; break; case 4: c=B*(1+s.draw(2)); break; case 5: c=left+B*s.draw(3); break; default: c=s.draw(2*B+2); } Bytes b=s.bytes(c); Guarded g(b,s.draw(16)); kripto_mac_input(a.q.get(),g.p(),c); eq(g.get(),b,"input buffer"); a.msg.insert(a.msg.end(),b.begin(),b.end()); x.say(" in %zu",c); if(c) fed++; }
    else if(k<8&&!a.done) fin(a);
    else { x.say(" recreate"); if(!a.done&&!a.msg.empty()) x.label("recreated in mid-message"); Bytes old=a.key; unsigned or_=a.r; params(a); if(s.chance(1,4)){ a.key=old; a.r=or_; x.say(" (same key)"); } kripto_mac*nq=kripto_mac_recreate(a.q.get(),a.r,a.key.data(),a.key.size(),a.tl); if(!nq){ a.q.release(); fail("kripto_mac_recreate failed"); } a.q.release(); a.q.reset(nq); if(kripto_mac_getdesc(nq)!=a.m->d) fail("descriptor after recreate"); re++; } }
  for(auto&a:v) if(!a.done){ x.say("; [%zu]",(size_t)(&a-&v[0])); fin(a); }
  // a modified message or key must be rejected (default rounds, tags long enough for chance to be negligible)
  { MS&a=v[0]; MacCfg&m=*a.m; if(m.name.find("custom")==std::string::npos&&m.maxtag>=8){ unsigned kmin=std::min(m.maxkey,16u); Bytes key=s.random(kmin+s.draw(m.maxkey-kmin+1)); unsigned tl=std::max(8u,pick_taglen(s,m)); a.r=0; a.tl=tl; Bytes msg=s.bytes(1+s.draw(3*m.block+2)); Bytes t=all(a,key,msg); Bytes k2=key,m2=msg; unsigned how=s.draw(4); unsigned B=m.block; (void)B;
      if(how==0&&(m.name.find("des")==std::string::npos)){ unsigned b=s.draw(8*k2.size()); k2[b/8]^=1<<(b%8); x.say("; key[%zu] bit %u flipped",key.size(),b); } else if(how<=1){ unsigned b=s.draw(8*m2.size()); m2[b/8]^=1<<(b%8); x.say("; message[%zu] bit %u flipped",msg.size(),b); } else if(how==2){ unsigned c=1+s.draw(m2.size()); m2.resize(m2.size()-c); x.say("; message[%zu] truncated by %u",msg.size(),c); } else { Bytes e(1+s.draw(m.block),0); if(s.draw(2)) e[0]=0x80; if(s.draw(2)) m2.insert(m2.end(),e.begin(),e.end()); else m2.insert(m2.begin(),e.begin(),e.end()); x.say("; message[%zu] extended by %zu",msg.size(),e.size()); }
      MacP q(mcreate(m,0,k2,tl)); auto sp=s.split(m2.size(),m.block,1); feed(q.get(),m2,sp); if(kripto_mac_verify(q.get(),t.data(),tl)) fail("%s: verify accepts the tag of another message or key",m.name.c_str()); forge++; x.label("verify modified message or key"); } }
  if(re) x.label("with recreate"); 
  if(fed>1||re||forge) x.nt(); }
static void c07fix(uint64_t i,Ctx&x){ // every single-bit modification of every tag length
  if(i<mac_variants()){ MacCfg m; mac_cfg(m,i); x.say("%s: all single-bit tag changes, all tag lengths",m.name.c_str()); Bytes key(m.b?std::min(m.maxkey,16u):16),msg(2*m.block+3,0x42); for(size_t j=0;j<key.size();j++) key[j]=j*91+5; for(unsigned tl=1;tl<=m.maxtag;tl++){ Bytes t(tl); if(kripto_mac_all(m.d,0,key.data(),key.size(),msg.data(),msg.size(),t.data(),tl)) fail("mac_all failed"); unsigned step=tl>40?7:1; for(unsigned b=0;b<=8*tl;b+=b==8*tl?1:std::min(step,8*tl-b)){ Bytes f=t; if(b<8*tl) f[b/8]^=1<<(b%8); MacP q(mcreate(m,0,key,tl)); kripto_mac_input(q.get(),msg.data(),msg.size()); int v=kripto_mac_verify(q.get(),f.data(),tl); if(b<8*tl&&v) fail("tag length %u: verify accepts a tag with bit %u flipped",tl,b); if(b==8*tl&&!v) fail("tag length %u: verify rejects the correct tag",tl); } } x.nt(); return; }
  i-=mac_variants(); static const unsigned big[]={6,n_hashes+32,mac_variants()-2,8,2,n_hashes+n_blocks+20}; if(i<(x.thorough?6:3)){ MacCfg m; mac_cfg(m,big[i]); const uint8_t*p=big_region(); if(!p) return; unsigned r=0; { auto v=m.rounds(16); if(!v.empty()) r=v[0]; } size_t len=(4ull<<30)+4103; x.say("%s: one input call of %zu bytes against pieces",m.name.c_str(),len); Bytes key(16,7); MacP a(mcreate(m,r,key,m.maxtag)),b(mcreate(m,r,key,m.maxtag)); kripto_mac_input(a.get(),p,len); for(size_t o=0;o<len;){ size_t c=std::min<size_t>(len-o,(1u<<20)+1); kripto_mac_input(b.get(),p+o,c); o+=c; } Bytes ta(m.maxtag),tb(m.maxtag); kripto_mac_tag(a.get(),ta.data(),m.maxtag); kripto_mac_tag(b.get(),tb.data(),m.maxtag); eq(ta,tb,"tag depends on the chunking"); a.reset(kripto_mac_recreate(a.release(),r,key.data(),key.size(),m.maxtag)); b.reset(mcreate(m,r,key,m.maxtag)); if(!a) fail("kripto_mac_recreate failed"); for(auto*e:{a.get(),b.get()}) kripto_mac_input(e,p+9,1000); kripto_mac_tag(a.get(),ta.data(),m.maxtag); kripto_mac_tag(b.get(),tb.data(),m.maxtag); eq(ta,tb,"tag of an object recreated after a message above 4 GiB"); x.label("single call above 4 GiB"); x.nt(); } }
static Reg r07({"C07","histories over 1..3 live MAC objects (construction x primitive of the first enumerated): input pieces aimed at block boundaries, tag (for all but HMAC also in pieces) / verify genuine / verify modified tag at any point, recreate at any point; results compared with kripto_mac_all of the concatenated message; then a modified key or message must be rejected. Systematic part: every tag length and single-bit change of the tag for every library MAC, single input calls above 2^32 bytes. Non-trivial: more than one non-empty piece, a recreate or a forgery.",300000,8000000,c07,200+6,c07fix,600,"a forged message or key is taken to be rejected only for tags of at least 8 bytes at full rounds (2^-64 chance)"});
