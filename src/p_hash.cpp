// C04, C05: hash functions
#include "common.h"
#include "big.h"
#include <cstdio>
static const unsigned arb_out[]={1,2,16,20,28,32,48,49,50,64,66,72,98,99,100,101,128,136,199,200,201,256,300,400,1000};
static unsigned pick_outlen(Src&s,const HashSpec&h,bool st){ if(h.maxout) return 1+(st?s.strat(h.maxout):s.draw(h.maxout)); unsigned k=st?s.strat(160):s.draw(160); if(k<128) return 1+k; if(k<150) return arb_out[s.draw(sizeof arb_out/sizeof*arb_out)]; if(s.chance(1,40)) return 1+s.draw(20000); return 1+s.draw(1500); }
static Bytes pick_salt(Src&s,const HashSpec&h){ if(!h.maxsalt||s.chance(1,3)) return Bytes(); size_t mx=std::min<uint64_t>(h.maxsalt,300); unsigned k=s.draw(4); size_t n=k==0?h.maxsalt<=300?h.maxsalt:32*s.draw(9):s.draw(mx+1); return s.bytes(n); }
static kripto_hash* hcreate(const kripto_desc_hash*d,unsigned r,const Bytes&salt,unsigned ol){ kripto_hash*h=kripto_hash_create(d,r,cp(salt),salt.size(),ol); if(!h) fail("kripto_hash_create failed (rounds %u, salt %zu, out_len %u)",r,salt.size(),ol); return h; }
static kripto_hash* hobj(Src&s,Ctx&x,const kripto_desc_hash*d,const HashSpec&h,unsigned r,const Bytes&salt,unsigned ol){ if(!aged(s,x)) return hcreate(d,r,salt,ol); unsigned o2=pick_outlen(s,h,false); HashP q(hcreate(d,pick_rounds(s,h.rounds(),1,3),pick_salt(s,h),o2)); if(s.draw(3)){ Bytes b=s.bytes(s.len(3*h.blocksize,h.blocksize)); kripto_hash_input(q.get(),cp(b),b.size()); } if(s.draw(2)){ Bytes o(o2); kripto_hash_output(q.get(),o.data(),o2); } kripto_hash*n=kripto_hash_recreate(q.get(),r,cp(salt),salt.size(),ol); q.release(); if(!n) fail("kripto_hash_recreate failed"); return n; }
static Bytes run_split(kripto_hash*h,const Bytes&m,const std::vector<size_t>&in,size_t n,const std::vector<size_t>&out,bool guard){ size_t p=0; for(size_t c:in){ if(guard){ Guarded g(Bytes(m.begin()+p,m.begin()+p+c),p&15); kripto_hash_input(h,g.p(),c); } else kripto_hash_input(h,cp(m)+p,c); p+=c; } Bytes o(n); p=0; for(size_t c:out){ if(guard){ Guarded g(c,p&7); kripto_hash_output(h,g.p(),c); g.check("hash output"); memcpy(mp(o)+p,g.p(),c); } else kripto_hash_output(h,mp(o)+p,c); p+=c; } return o; }
static std::string js(const std::vector<size_t>&v){ std::string r="{"; for(size_t i=0;i<v.size()&&i<16;i++) r+=(i?",":"")+std::to_string(v[i]); return r+(v.size()>16?",...}":"}"); }

static void c04(Src&s,Ctx&x){ unsigned hi=s.strat(n_hashes); const char*nm=g_hashes[hi].name; auto*d=g_hashes[hi].d; const HashSpec&h=ref::hash(nm); unsigned ol=pick_outlen(s,h,true); 
  unsigned lk=s.draw(400); size_t ml=lk==399?s.draw(5)?s.draw(40000):s.draw(1u<<20):lk>=390?s.draw(20000):s.len(5*h.blocksize+9,h.blocksize); Bytes m=s.bytes(ml),salt=pick_salt(s,h); unsigned r=pick_rounds(s,h.rounds(),1,3);
  x.say("%s out_len=%u rounds=%u salt[%zu]=%s msg[%zu]=%s",nm,ol,r,salt.size(),hex(salt,16).c_str(),ml,hex(m,24).c_str()); x.label(nm); if(salt.size()) x.label("salted"); if(r) x.label("explicit rounds"); if(ml>=10000) x.label("message of 10 kB or more"); if(ml%h.blocksize==0) x.label("message a multiple of the block");
  Bytes want=h.run(r,salt,m,ol,ol),o(ol);
  if(s.draw(2)){ Guarded g(ol); if(kripto_hash_all(d,r,cp(salt),salt.size(),cp(m),ml,g.p(),ol)) fail("kripto_hash_all failed"); g.check("hash_all output"); eq(g.get(),want,"hash_all"); }
  else { HashP q(hobj(s,x,d,h,r,salt,ol)); auto a=s.split(ml,h.blocksize,1); o=run_split(q.get(),m,a,ol,{ol},false); x.say(" chunks=%s",js(a).c_str()); eq(o,want,"digest"); }
  x.nt(); }
// systematic part: every length 0..3 blocks, and very long messages against digests the model computed beforehand
struct Golden { const char*h; unsigned ol; uint64_t len; const char*hex; };
static const Golden goldens[]={
#include "golden.inc"
};
static const unsigned NG=sizeof goldens/sizeof*goldens;
static Bytes unhex(const char*p){ Bytes b; for(;*p;p+=2){ unsigned v; sscanf(p,"%2x",&v); b.push_back(v); } return b; }
static const unsigned NLONG=18;
static void c04fix(uint64_t i,Ctx&x){ if(i<NG){ const Golden&g=goldens[i]; bool quick4=g.len>(1ull<<32)?!strcmp(g.h,"md5")||!strcmp(g.h,"blake2s")||!strcmp(g.h,"blake2b"):g.len!=536870907||!strcmp(g.h,"blake256")||!strcmp(g.h,"sha2_256")||!strcmp(g.h,"sha1"); if(!x.thorough&&!quick4){ x.say("%s %llu bytes: thorough tier only",g.h,(unsigned long long)g.len); return; } x.say("%s out_len=%u message of %llu bytes (fixed pattern)",g.h,g.ol,(unsigned long long)g.len); const uint8_t*p=big_region(); if(!p||g.len>BIG_SIZE){ x.label("no memory for long message"); return; } HashP q(hcreate(lhash(g.h),0,Bytes(),g.ol)); size_t done=0; while(done<g.len){ size_t c=std::min<uint64_t>(g.len-done,(3u<<20)+17); kripto_hash_input(q.get(),p+done,c); done+=c; } Bytes o(g.ol); kripto_hash_output(q.get(),o.data(),g.ol); eq(o,unhex(g.hex),"digest of a very long message"); x.label("message longer than 2^32 bits"); x.nt(); return; }
  i-=NG; if(i<10){ static const struct { const char*h; unsigned r,n,t; } L[]={{"skein256",8,32*65537,0},{"skein512",8,64*300,0},{"skein1024",8,128*300,0},{"skein256",0,32*300+7,0},{"keccak1600",0,100000,0},{"keccak800",0,100000,0},{"skein512",8,64*65537,1},{"skein1024",8,128*65537,1},{"skein512",0,64*66000,1},{"skein256",8,32*200000,1}}; auto&l=L[i]; if(l.t&&!x.thorough) return; const HashSpec&h=ref::hash(l.h); unsigned ol=l.h[0]=='k'?32:l.n; x.say("%s rounds=%u, %u bytes of output",l.h,l.r,l.n); Bytes m(33,7),o(l.n); HashP q(hcreate(lhash(l.h),l.r,Bytes(),ol)); kripto_hash_input(q.get(),m.data(),m.size()); kripto_hash_output(q.get(),o.data(),l.n); eq(o,h.run(l.r,Bytes(),m,ol,l.n),"long output"); x.label("long output"); x.nt(); return; }
  i-=10; // Skein: long salts, and very long declared outputs of which little is taken
  if(i<NLONG){ static const struct { const char*h; unsigned r; uint64_t ol; size_t sl; bool slow; } L[NLONG]={{"skein256",8,(1u<<21)+5,3,0},{"skein512",8,(1u<<21)+64,0,0},{"skein1024",8,(1u<<29)+7,1,0},{"skein256",0,(1u<<29)+1,0,0},{"skein512",8,(1u<<29)+11,9,0},{"skein1024",8,(1u<<21)+13,0,0},{"skein256",8,0xffffffffu,5,0},{"skein512",0,0xffffffffu,0,0},{"skein1024",8,0xfffffffeu,2,0},{"skein256",8,32,65539,0},{"skein512",8,64,65541,0},{"skein1024",8,128,65543,0},{"skein256",8,17,(1u<<24)+9,0},{"skein512",8,50,(1u<<24)+10,0},{"skein1024",8,99,(1u<<24)+11,0},{"skein256",0,17,(1u<<24)*9+9,1},{"skein512",0,50,(1u<<28)+77,1},{"skein1024",0,99,(1u<<28)+11,1}}; auto&l=L[i]; if(l.slow&&!x.thorough){ x.say("thorough tier"); return; } const HashSpec&h=ref::hash(l.h); x.say("%s rounds=%u, %llu bytes of output declared, salt of %zu bytes",l.h,l.r,(unsigned long long)l.ol,l.sl); const uint8_t*b=big_region(); if(!b) return; size_t n=std::min<uint64_t>(l.ol,200); Bytes m(33,7),o(n),salt(b,b+l.sl); HashP q(hcreate(lhash(l.h),l.r,salt,l.ol)); kripto_hash_input(q.get(),m.data(),m.size()); kripto_hash_output(q.get(),o.data(),n); eq(o,h.run(l.r,salt,m,l.ol,n),"digest"); if(l.ol<1000){ Bytes a(l.ol); if(kripto_hash_all(lhash(l.h),l.r,cp(salt),salt.size(),m.data(),m.size(),a.data(),a.size())) fail("hash_all failed"); eq(a,o,"one-shot digest"); } x.label("long salt or long declared output"); x.nt(); return; }
  i-=NLONG; unsigned hi=i%n_hashes; i/=n_hashes; const char*nm=g_hashes[hi].name; const HashSpec&h=ref::hash(nm); static const double fr[]={1,0.875,0.75,0.5}; unsigned ol=h.maxout?std::max(1u,(unsigned)(h.maxout*fr[i%4])):(unsigned)(std::min(h.blocksize,98u)/2*fr[i%4]); x.say("%s out_len=%u, every message length 0..%u",nm,ol,3*h.blocksize+2); Bytes m; for(unsigned n=0;n<=3*h.blocksize+2;n++){ Bytes o(ol); if(kripto_hash_all(g_hashes[hi].d,0,0,0,cp(m),n,o.data(),ol)) fail("hash_all failed"); Bytes w=h.run(0,Bytes(),m,ol,ol); if(o!=w){ x.say(" length %u",n); eq(o,w,"digest"); } m.push_back((uint8_t)(n*167+13*i)); } x.label("all lengths"); x.nt(); }
static Reg r04({"C04","hash x output length enumerated over the case index; salt, round count, message length (emphasis on block boundaries, some up to 1 MiB) and contents drawn; digest compared with an independent model. Systematic part: all lengths up to three blocks for four output lengths of each hash, and messages of more than 2^32 bits (some of more than 2^32 bytes) against digests computed beforehand by the model; Skein salts and declared outputs beyond 2^16, 2^24 and 2^29 bytes. Non-trivial: every case.",200000,4000000,c04,NG+10+NLONG+16*4,c04fix,600,"the reference model in /verif/ref, itself cross-validated against libgcrypt, hashlib and published vectors"});

struct HS { HashP h; unsigned hi; unsigned r,ol; Bytes salt,msg; size_t out=0; bool outm=false; Bytes got; };
static Bytes oneshot(const HS&q,size_t n){ const auto*d=g_hashes[q.hi].d; // n may differ from out_len only for arbitrary-length output
  if(n<=q.ol&&q.ol){ Bytes o(q.ol); if(kripto_hash_all(d,q.r,cp(q.salt),q.salt.size(),cp(q.msg),q.msg.size(),o.data(),q.ol)) fail("hash_all failed"); o.resize(n); return o; }
  HashP f(hcreate(d,q.r,q.salt,q.ol)); kripto_hash_input(f.get(),cp(q.msg),q.msg.size()); Bytes o(n); kripto_hash_output(f.get(),o.data(),n); return o; }
static void c05(Src&s,Ctx&x){ std::vector<HS> v(1+s.draw(3)); unsigned first=s.strat(n_hashes); unsigned fed=0,re=0; x.say("objects=%zu",v.size());
  auto params=[&](HS&q){ const HashSpec&h=ref::hash(g_hashes[q.hi].name); q.ol=pick_outlen(s,h,false); q.salt=pick_salt(s,h); q.r=pick_rounds(s,h.rounds(),1,4); q.msg.clear(); q.got.clear(); q.out=0; q.outm=false; x.say(" %s r=%u ol=%u salt=%zu",g_hashes[q.hi].name,q.r,q.ol,q.salt.size()); };
  auto capo=[&](HS&q)->size_t{ std::string n=g_hashes[q.hi].name; return n.compare(0,6,"keccak")?q.ol:q.ol+600; };
  auto feed=[&](HS&q){ const HashSpec&h=ref::hash(g_hashes[q.hi].name); size_t n; unsigned k=s.draw(8); size_t left=h.blocksize-q.msg.size()%h.blocksize; switch(k){ case 0: n=0; break; case 1: n=left; break; case 2: n=left+h.blocksize*s.draw(3); break; case 3: n=left-1; break; case 4: n=left+1; break; case 5: n=h.blocksize*(1+s.draw(3)); break; case 6: n=1; break; default: n=s.draw(3*h.blocksize+1); } Bytes b=s.bytes(n); Guarded g(b,s.draw(16)); kripto_hash_input(q.h.get(),g.p(),n); eq(g.get(),b,"input buffer"); q.msg.insert(q.msg.end(),b.begin(),b.end()); x.say(" in %zu",n); if(n) fed++; };
  auto take=[&](HS&q){ size_t cap=capo(q)-q.out; size_t n=s.draw(3)?s.draw(cap+1):cap; Guarded g(n,s.draw(16)); kripto_hash_output(q.h.get(),g.p(),n); g.check("output"); Bytes o=g.get(); q.got.insert(q.got.end(),o.begin(),o.end()); q.out+=n; q.outm=true; x.say(" out %zu",n); };
  auto check=[&](HS&q){ if(q.got.empty()) return; Bytes w=oneshot(q,q.got.size()); if(q.got!=w) eq(q.got,w,"digest drawn in pieces differs from the one-shot digest"); };
  for(auto&q:v){ q.hi=&q==&v[0]||s.chance(1,2)?first:s.draw(n_hashes); x.say(" [%zu]",(size_t)(&q-&v[0])); params(q); q.h.reset(hcreate(g_hashes[q.hi].d,q.r,q.salt,q.ol)); if(kripto_hash_getdesc(q.h.get())!=g_hashes[q.hi].d) fail("descriptor"); }
  unsigned n=3+s.draw(14);
  for(unsigned i=0;i<n;i++){ HS&q=v[s.draw(v.size())]; x.say("; [%zu]",(size_t)(&q-&v[0])); unsigned k=s.draw(10);
    if(k<6&&!q.outm) feed(q); else if(k<8||q.outm){ if(k<9){ take(q); continue; } }
    if(k>=8){ check(q); x.say(" recreate"); if(q.got.empty()&&!q.msg.empty()) x.label("recreated in mid-message"); if(!q.got.empty()) x.label("recreated after output"); params(q); kripto_hash*nh=kripto_hash_recreate(q.h.get(),q.r,cp(q.salt),q.salt.size(),q.ol); if(!nh){ q.h.release(); fail("kripto_hash_recreate failed"); } q.h.release(); q.h.reset(nh); if(kripto_hash_getdesc(nh)!=g_hashes[q.hi].d) fail("descriptor after recreate"); re++; } }
  for(auto&q:v){ x.say("; [%zu]",(size_t)(&q-&v[0])); if(!q.outm&&s.draw(2)) feed(q); while(q.out<q.ol) take(q); check(q); }
  if(re) x.label("with recreate");
  if(v.size()>1) x.label("several objects"); 
  if(fed>1||re) x.nt(); }
// single calls of more than 4 GiB against the same data in pieces
static void c05fix(uint64_t i,Ctx&x){ const char*nm=g_hashes[i].name; const HashSpec&h=ref::hash(nm); const uint8_t*p=big_region(); if(!p) return; unsigned ol=h.maxout?h.maxout:32; auto rv=h.rounds(); unsigned r=rv.empty()||x.thorough?0:rv[0]; size_t len=(4ull<<30)+(1u<<20)+5; x.say("%s rounds %u: one input call of %zu bytes against 1 MiB pieces",nm,r,len); Bytes a(ol),b(ol); HashP q(hcreate(lhash(nm),r,Bytes(),ol)),t(hcreate(lhash(nm),r,Bytes(),ol)); kripto_hash_input(q.get(),p,len); for(size_t o=0;o<len;){ size_t c=std::min<size_t>(len-o,1u<<20); kripto_hash_input(t.get(),p+o,c); o+=c; } kripto_hash_output(q.get(),a.data(),ol); kripto_hash_output(t.get(),b.data(),ol); eq(a,b,"digest depends on the chunking"); q.reset(kripto_hash_recreate(q.release(),r,0,0,ol)); t.reset(hcreate(lhash(nm),r,Bytes(),ol)); if(!q) fail("kripto_hash_recreate failed"); for(auto*e:{q.get(),t.get()}) kripto_hash_input(e,p+9,1000); kripto_hash_output(q.get(),a.data(),ol); kripto_hash_output(t.get(),b.data(),ol); eq(a,b,"digest of an object recreated after a message above 4 GiB"); x.label("single call above 4 GiB"); x.nt(); }
static Reg r05({"C05","histories over 1..3 live hash objects (hash of the first enumerated): input pieces aimed at block boundaries, output drawn in pieces, recreate at any point with new parameters; every digest is compared with kripto_hash_all of the concatenated message. Systematic part: single input calls of more than 2^32 bytes, and recreation after them. Non-trivial: more than one non-empty input piece on an object set, or a recreate.",200000,6000000,c05,16,c05fix,600,nullptr});
