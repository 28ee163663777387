// C01, C02, C03: block ciphers
#include "common.h"
struct BC { const char*name; const kripto_desc_block*d; const BlockSpec*rs; BlockDesc own; unsigned bs; uint8_t sb[8][16]; bool custom=false; };
static void pick_cipher(Src&s,BC&c,bool st=true){ unsigned i=st?s.strat(n_blocks+1):s.draw(n_blocks+1); if(i<n_blocks){ c.name=g_blocks[i].name; c.d=g_blocks[i].d; c.rs=&rblock(c.name); }
  else { c.custom=true; c.name="gost(custom S-boxes)"; Bytes b=s.bytes(128); for(int k=0;k<8;k++) for(int j=0;j<16;j++) c.sb[k][j]=b[k*16+j]&15; c.own.reset(lgost(c.sb)); if(!c.own) fail("kripto_block_gost failed"); c.d=c.own.get(); c.rs=&ref::block("gost_cbr"); } c.bs=c.rs->bs; }
static std::unique_ptr<ref::Block> rmake(BC&c,unsigned r,const Bytes&k){ return c.custom?ref::gost(c.sb,r,k):c.rs->make(r,k); }

static kripto_block* bobj(Src&s,Ctx&x,BC&c,unsigned r,const Bytes&key){ if(!aged(s,x)) return bcreate(c.d,r,key); const BlockSpec&rs=*c.rs; Bytes k=s.bytes(pick_keylen(s,rs.maxkey)); BlockP b(bcreate(c.d,pick_rounds(s,rs.rounds(k.size())),k)); if(rs.maxtweak&&s.draw(2)){ Bytes t=s.bytes(1+s.draw(rs.maxtweak)); kripto_block_tweak(b.get(),t.data(),t.size()); } if(s.draw(2)){ Bytes o=s.bytes(c.bs); kripto_block_encrypt(b.get(),o.data(),o.data()); } kripto_block*q=kripto_block_recreate(b.get(),r,key.data(),key.size()); b.release(); if(!q) fail("kripto_block_recreate failed"); return q; }

static void c01(Src&s,Ctx&x){ BC c; pick_cipher(s,c); const BlockSpec&rs=*c.rs;
  unsigned kl=1+s.strat(rs.maxkey); Bytes key=s.bytes(kl); auto rv=rs.rounds(kl); unsigned r=pick_rounds(s,rv);
  x.say("%s key[%u]=%s rounds=%u",c.name,kl,hex(key).c_str(),r); x.label(c.name); if(r) x.label("explicit rounds");
  BlockP b(bobj(s,x,c,r,key)); auto m=rmake(c,r,key);
  if(rs.maxtweak&&s.chance(2,3)){ Bytes t=s.bytes(1+s.draw(rs.maxtweak)); x.say(" tweak[%zu]=%s",t.size(),hex(t).c_str()); x.label("tweaked"); kripto_block_tweak(b.get(),t.data(),t.size()); m->tweak(t); }
  unsigned n=1+s.draw(6); Bytes in,o(c.bs),w(c.bs);
  for(unsigned i=0;i<n;i++){ in=s.bytes(c.bs); x.say(" block=%s",hex(in).c_str());
    Bytes e=in,f=in; unsigned chain=rs.maxkey>200?4:10; // walk along the orbit of the block
    for(unsigned j=0;j<chain;j++){ kripto_block_encrypt(b.get(),e.data(),o.data()); m->enc(e.data(),w.data()); if(o!=w){ x.say(" encrypting %s",hex(e).c_str()); eq(o,w,"encrypt differs from the published algorithm"); } e=o;
      kripto_block_decrypt(b.get(),f.data(),o.data()); m->dec(f.data(),w.data()); if(o!=w){ x.say(" decrypting %s",hex(f).c_str()); eq(o,w,"decrypt differs from the published inverse"); } f=o; } }
  x.nt(); }
static Reg r01({"C01","cipher (all descriptors and a GOST with generated S-boxes) x key length enumerated over the case index; key bytes, round count (default or any the cipher defines), tweak and blocks drawn (structured and random contents); both directions along chains of blocks compared with an independent model. Non-trivial: every case (at least one full comparison per direction); distinct by choice tape.",1200000,30000000,c01,0,nullptr,60,"the reference model in /verif/ref, itself cross-validated against libgcrypt, hashlib and published vectors"});

static void c02(Src&s,Ctx&x){ BC c; pick_cipher(s,c); const BlockSpec&rs=*c.rs; const unsigned bs=c.bs; bool st=s.draw(2); unsigned kl=st?1+s.strat(rs.maxkey):pick_keylen(s,rs.maxkey); Bytes key=s.bytes(kl); unsigned r=pick_rounds(s,rs.rounds(kl));
  x.say("%s key[%u]=%s rounds=%u",c.name,kl,hex(key).c_str(),r); x.label(c.name); BlockP b(bobj(s,x,c,r,key)); BlockP twin(bcreate(c.d,r,key)); 
  if(rs.maxtweak&&s.chance(2,3)){ Bytes t=s.bytes(1+s.draw(rs.maxtweak)); x.say(" tweak[%zu]=%s",t.size(),hex(t).c_str()); kripto_block_tweak(b.get(),t.data(),t.size()); kripto_block_tweak(twin.get(),t.data(),t.size()); }
  unsigned n=1+s.draw(8); Bytes in=s.bytes(bs);
  for(unsigned i=0;i<n;i++){ bool dec=s.draw(2); if(s.draw(2)) in=s.bytes(bs); x.say(" %s %s",dec?"dec":"enc",hex(in).c_str());
    auto fwd=[&](kripto_block*q,const uint8_t*a,uint8_t*o){ if(dec) kripto_block_decrypt(q,a,o); else kripto_block_encrypt(q,a,o); };
    auto bwd=[&](kripto_block*q,const uint8_t*a,uint8_t*o){ if(dec) kripto_block_encrypt(q,a,o); else kripto_block_decrypt(q,a,o); };
    Guarded a(in,s.draw(16)),o(bs,s.draw(16)),back(bs,s.draw(16)); fwd(b.get(),a.p(),o.p()); if(a.get()!=in) fail("separate input buffer was altered"); o.check("output"); a.check("input"); Bytes y=o.get();
    bwd(b.get(),o.p(),back.p()); back.check("inverse output"); if(o.get()!=y) fail("separate input buffer of the inverse was altered"); eq(back.get(),in,dec?"encrypt(decrypt(x)) is not x":"decrypt(encrypt(x)) is not x");
    // the twin object never did the inverse: state must not have changed
    Guarded t(bs); fwd(twin.get(),in.data(),t.p()); eq(t.get(),y,"result depends on earlier calls on the object");
    // aliasing: output starts k bytes before or after the input
    for(unsigned q=0;q<2;q++){ int sh=q==0?0:(int)s.draw(2*bs-1)-(int)(bs-1); x.say(" alias%+d",sh); Guarded z(3*bs,s.draw(16)); memset(z.p(),0x3d,3*bs); memcpy(z.p()+bs,in.data(),bs); fwd(b.get(),z.p()+bs,z.p()+bs+sh); Bytes got(z.p()+bs+sh,z.p()+bs+sh+bs); eq(got,y,sh?"overlapping buffers change the result":"in-place operation changes the result"); z.check("aliased output"); for(int j=0;j<(int)(3*bs);j++) if(j<(int)bs+sh||j>=(int)(2*bs)+sh){ uint8_t w=j>=(int)bs&&j<(int)(2*bs)?in[j-bs]:0x3d; if(z.p()[j]!=w) fail("byte %d next to the output block was altered",j-(int)bs-sh); } if(sh) x.label("overlapping"); 
      if(q==1){ Guarded u(3*bs,s.draw(16)); memcpy(u.p()+bs,y.data(),bs); bwd(b.get(),u.p()+bs,u.p()+bs+sh); eq(Bytes(u.p()+bs+sh,u.p()+bs+sh+bs),in,"inverse with overlapping buffers"); u.check("aliased inverse output"); } }
    in=y; }
  x.nt(); }
static Reg r02({"C02","cipher enumerated over the case index, key length enumerated or word-aligned/extreme; rounds, tweak, alignment, block contents and every kind of overlap drawn; each step checks the round trip both ways, in-place and shifted overlap against separate buffers, the guard bytes, the input buffer, and a twin object that never ran the inverse. Non-trivial: every case.",3000000,40000000,c02,0,nullptr,60,nullptr});

// ---- C03: stateful ----
struct Slot { BlockP b; unsigned ci; unsigned r; Bytes key,tweak; bool tw=false; };
static void c03(Src&s,Ctx&x){ std::vector<Slot> sl(1+s.draw(3)); unsigned first=s.strat(n_blocks); unsigned re=0; x.say("slots=%zu",sl.size());
  auto newkey=[&](Slot&q,unsigned&r,Bytes&k){ const BlockSpec&rs=rblock(g_blocks[q.ci].name); unsigned kl=pick_keylen(s,rs.maxkey); k=s.bytes(kl); r=pick_rounds(s,rs.rounds(kl),2,3); x.say(" r=%u key[%u]=%s",r,kl,hex(k,8).c_str()); };
  auto probe=[&](Slot&q){ const BlockSpec&rs=rblock(g_blocks[q.ci].name); const auto*d=g_blocks[q.ci].d; BlockP f(bcreate(d,q.r,q.key)); if(q.tw) kripto_block_tweak(f.get(),q.tweak.data(),q.tweak.size()); if(kripto_block_getdesc(q.b.get())!=d) fail("%s: the object reports another descriptor",g_blocks[q.ci].name);
    for(int i=0;i<2;i++){ Bytes in=s.bytes(rs.bs); Bytes a(rs.bs),b(rs.bs); kripto_block_encrypt(f.get(),in.data(),a.data()); kripto_block_encrypt(q.b.get(),in.data(),b.data()); if(a!=b){ x.say(" encrypt"); eq(b,a,"encryption after this history differs from a fresh object"); } kripto_block_decrypt(f.get(),in.data(),a.data()); kripto_block_decrypt(q.b.get(),in.data(),b.data()); if(a!=b){ x.say(" decrypt"); eq(b,a,"decryption after this history differs from a fresh object"); } } };
  for(auto&q:sl){ q.ci=&q==&sl[0]||s.chance(1,2)?first:s.draw(n_blocks); x.say(" [%zu]%s create",(size_t)(&q-&sl[0]),g_blocks[q.ci].name); newkey(q,q.r,q.key); q.b.reset(bcreate(g_blocks[q.ci].d,q.r,q.key)); }
  unsigned n=2+s.draw(9); bool twre=false;
  for(unsigned i=0;i<n;i++){ Slot&q=sl[s.draw(sl.size())]; size_t qi=&q-&sl[0]; const BlockSpec&rs=rblock(g_blocks[q.ci].name); x.say("; [%zu]",qi);
    switch(s.draw(6)){ case 0: probe(q); break;
      case 1: case 2: { unsigned r; Bytes k; x.say("recreate"); unsigned how=s.draw(4); if(how==0){ k=q.key; r=pick_rounds(s,rs.rounds(k.size()),3,4); x.say(" r=%u same key",r); } else if(how==1){ unsigned kl=pick_keylen(s,rs.maxkey); auto v=rs.rounds(kl); k=s.bytes(kl); r=q.r; if(r&&std::find(v.begin(),v.end(),r)==v.end()) r=0; x.say(" r=%u key[%u]",r,kl); } else newkey(q,r,k); kripto_block*nb=kripto_block_recreate(q.b.get(),r,k.data(),k.size()); if(!nb){ q.b.release(); fail("kripto_block_recreate failed"); } if(nb!=q.b.get()) x.label("replaced object"); q.b.release(); q.b.reset(nb); if(q.tw) twre=true; if(r!=q.r) x.label("rounds changed"); if(k.size()<q.key.size()) x.label("shorter key"); q.r=r; q.key=k; q.tw=false; q.tweak.clear(); re++; if(s.chance(3,4)) probe(q); break; }
      case 3: if(rs.maxtweak){ q.tweak=s.bytes(1+s.draw(rs.maxtweak)); q.tw=true; x.say("tweak[%zu]",q.tweak.size()); kripto_block_tweak(q.b.get(),q.tweak.data(),q.tweak.size()); break; } // fallthrough
      case 4: { x.say("use"); Bytes a=s.bytes(rs.bs); kripto_block_encrypt(q.b.get(),a.data(),a.data()); kripto_block_decrypt(q.b.get(),a.data(),a.data()); kripto_block_decrypt(q.b.get(),a.data(),a.data()); break; }
      default: if(sl.size()>1&&s.chance(1,3)){ x.say("replace by a new object"); q.b.reset(); q.ci=s.draw(n_blocks); x.say(" %s",g_blocks[q.ci].name); newkey(q,q.r,q.key); q.tw=false; q.b.reset(bcreate(g_blocks[q.ci].d,q.r,q.key)); } else probe(q); } }
  for(auto&q:sl){ x.say("; [%zu]",(size_t)(&q-&sl[0])); probe(q); }
  if(twre) x.label("re-keyed after tweak");
  if(re) x.nt(); }
static Reg r03({"C03","histories of create / recreate / tweak / encrypt / decrypt / replace over 1..3 live objects (cipher of the first enumerated over the case index), key lengths and round counts changing in both directions; after steps and at the end each object is compared, in both directions, with a freshly created one given the last rounds, key and tweak, and its descriptor is checked. Non-trivial: at least one recreate in the history.",3000000,30000000,c03,0,nullptr,60,nullptr});
