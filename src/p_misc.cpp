// C13: PKCS#7; C22: limits
#include "aecfg.h"
#include "toy.h"
#include "big.h"
#include <climits>
// what add must do: the reference
static void check_add(Ctx&x,const Bytes&msg,unsigned pad,size_t cap,unsigned mis){ size_t n=msg.size(),k=pad-n%pad; x.say(" add len=%zu pad=%u capacity=%zu",n,pad,cap); size_t room=std::max(cap,n); Guarded g(room,mis); memset(g.p(),0x7e,room); if(n) memcpy(g.p(),msg.data(),n); size_t r=kripto_pkcs7_add(g.p(),n,pad,cap); g.check("pkcs7_add buffer"); Bytes w(room,0x7e); std::copy(msg.begin(),msg.end(),w.begin());
  if(n+k>cap){ x.label("add refused"); if(r) fail("returned %zu although the result needs %zu of %zu bytes",r,n+k,cap); eq(g.get(),w,"buffer after a refused add"); return; }
  if(r!=n+k) fail("returned %zu, expected %zu",r,n+k); for(size_t i=0;i<k;i++) w[n+i]=k; eq(g.get(),w,"padded buffer"); x.label("add");
  size_t b=kripto_pkcs7_rem(g.p(),r); if(b!=n) fail("rem of a freshly padded buffer returned %zu, expected %zu",b,n); eq(g.get(),w,"buffer after rem"); }
static size_t model_rem(const Bytes&b){ size_t n=b.size(); if(!n) return 0; unsigned k=b[n-1]; if(!k||k>n) return n; for(size_t i=n-k;i<n;i++) if(b[i]!=k) return n; return n-k; }
static void check_rem(Ctx&x,const Bytes&b,unsigned mis){ Guarded g(b,mis); size_t r=kripto_pkcs7_rem(g.p(),b.size()),w=model_rem(b); g.check("pkcs7_rem buffer"); eq(g.get(),b,"buffer after rem"); if(r!=w){ x.say(" rem len=%zu tail=%s",b.size(),hex(b.data()+(b.size()>20?b.size()-20:0),std::min<size_t>(20,b.size())).c_str()); if(w==b.size()) fail("invalid padding: returned %zu, not the failure value %zu",r,w); fail("returned %zu, expected %zu",r,w); } x.label(w==b.size()?"rem of invalid padding":"rem of valid padding"); }
static void c13(Src&s,Ctx&x){ unsigned pad=1+s.strat(255); size_t n=s.draw(30)==29?s.draw(20000):s.len(3*pad+2,pad); size_t k=pad-n%pad; Bytes m=s.bytes(n); x.nt();
  switch(s.draw(4)){ case 0: { size_t cap; switch(s.draw(5)){ case 0: cap=n+k; break; case 1: cap=n+k-1; break; case 2: cap=n+k+1+s.draw(300); break; case 3: cap=n; break; default: cap=s.draw(n+k+2); } check_add(x,m,pad,cap,s.draw(16)); break; }
    case 1: { Bytes p=m; p.insert(p.end(),k,(uint8_t)k); x.say("padded len=%zu pad=%u",p.size(),pad); check_rem(x,p,s.draw(16)); break; }
    case 2: { Bytes p=m; p.insert(p.end(),k,(uint8_t)k); unsigned c=1+s.draw(2); for(unsigned i=0;i<c;i++){ size_t at=p.size()-1-s.draw(std::min<size_t>(p.size(),k+2)); uint8_t d=s.draw(3)?1<<s.draw(8):1+s.draw(255); p[at]^=d; x.say("padded len=%zu pad=%u, byte %zu from the end ^%02x;",p.size(),pad,p.size()-at,d); } x.label("corrupted"); check_rem(x,p,s.draw(16)); break; }
    default: { size_t l=s.draw(600); Bytes p(l); unsigned t=s.draw(256); for(auto&b:p) b=t; if(l&&s.draw(2)) p[s.draw(l)]^=1+s.draw(255); x.say("buffer of %zu bytes %02x",l,t); check_rem(x,p,s.draw(16)); } } }
static void c13fix(uint64_t i,Ctx&x){ x.nt(); if(i<255){ unsigned pad=i+1; x.say("pad %u, all lengths to two pads, all nearby capacities",pad); for(size_t n=0;n<=2*pad+1;n++){ Bytes m(n); for(size_t j=0;j<n;j++) m[j]=j*5+n; size_t k=pad-n%pad; for(size_t cap:{(size_t)0,n,n+k-1,n+k,n+k+1}){ x.desc.clear(); check_add(x,m,pad,cap,n&7); } Bytes p=m; p.insert(p.end(),k,(uint8_t)k); size_t from=p.size()>258?p.size()-258:0; for(size_t j=from;j<p.size();j++){ Bytes q=p; q[j]^=1<<(j&7); check_rem(x,q,0); q=p; q[j]=0; check_rem(x,q,0); } } x.desc="pad "+std::to_string(pad)+", all lengths to two pads"; x.label("exhaustive pad"); return; }
  i-=255; if(i<256){ // constant buffers: every value, every length around it
    for(size_t l=0;l<=300;l++){ Bytes b(l,(uint8_t)i); check_rem(x,b,l&7); if(l){ b[0]^=1; check_rem(x,b,0); } } x.say("constant buffers of byte %02x, lengths 0..300",(unsigned)i); return; }
  i-=256; uint8_t*b=big_scratch(); if(!b) return; static const size_t len[]={(1ull<<32)-1,1ull<<32,(1ull<<32)+1,(1ull<<32)+200,(1ull<<31)+7,(1ull<<32)+255*3}; size_t n=len[i%6]; static const unsigned pd[]={16,255,7,1,200}; unsigned pad=pd[i/6]; size_t k=pad-n%pad; x.say("len=%zu pad=%u",n,pad); // the 64 MiB unit repeats, so look only near the end
  memset(b+(n-300)%BIG_UNIT,0x11,300); size_t r=kripto_pkcs7_add(b,n,pad,n+k-1); if(r) fail("not refused"); r=kripto_pkcs7_add(b,n,pad,n+k); if(r!=n+k) fail("returned %zu",r); for(size_t j=0;j<k;j++) if(b[n+j]!=k) fail("pad byte"); if(b[n-1]!=0x11) fail("message byte altered"); r=kripto_pkcs7_rem(b,n+k); if(r!=n) fail("rem returned %zu",r); b[n]^=1; r=kripto_pkcs7_rem(b,n+k); if(k>1&&r!=n+k) fail("rem of invalid padding returned %zu",r); x.label("longer than 2^31"); }
static Reg r13({"C13","block size enumerated over the case index; length, capacity, contents and corruptions drawn; add, rem of valid, corrupted and constant buffers against an explicit model with guard bytes around the buffer. Systematic part: every pad with every length to two pads, all capacities around the limit and every single corruption; all constant buffers to 300 bytes; lengths around 2^31 and 2^32. Non-trivial: every case.",6000000,100000000,c13,255+256+30,c13fix,60,nullptr});

// ---- C22 ----
static void lim(const char*what,uint64_t got,uint64_t want){ if(got!=want) fail("%s reported as %llu, should be %llu",what,(unsigned long long)got,(unsigned long long)want); }
static const uint64_t U=UINT_MAX;
static bool differs(const Bytes&a,const Bytes&b){ return a!=b; }
// flipping the last byte of a key/IV/salt of that length must change the result
static void effect(const char*what,size_t n,const std::function<Bytes(const Bytes&)>&f,Src*s){ Bytes k=s?s->random(n):Bytes(n); if(!s) for(size_t i=0;i<n;i++) k[i]=i*73+n*11+5; Bytes a=f(k); for(size_t at:{n-1,(size_t)0}){ bool hit=false; for(unsigned d:{s?0xffu:0x5au,0x3cu,1u,2u,4u,8u,16u,32u,64u,127u,128u,0xa5u}){ Bytes b=k; b[at]^=d; if(differs(a,f(b))){ hit=true; break; } } if(!hit) fail("byte %zu of a %zu-byte %s has no effect",at,n,what); } }
static void c22block(unsigned bi,Src*s,Ctx&x,unsigned lo,unsigned hi){ const char*nm=g_blocks[bi].name; auto*d=g_blocks[bi].d; const BlockSpec&rs=rblock(nm); lim("block size",kripto_block_size(d),rs.bs); lim("maximum key",kripto_block_maxkey(d),rs.maxkey); lim("maximum tweak",kripto_block_maxtweak(d),rs.maxtweak);
  for(unsigned n=lo;n<=hi&&n<=rs.maxkey;n++) effect("key",n,[&](const Bytes&k){ BlockP b(bcreate(d,0,k)); if(kripto_block_getdesc(b.get())!=d) fail("object reports another descriptor"); Bytes o(4*rs.bs); for(int i=0;i<4;i++){ Bytes in(rs.bs); for(unsigned j=0;j<rs.bs;j++) in[j]=i*j*29+i; kripto_block_encrypt(b.get(),in.data(),&o[i*rs.bs]); } return o; },s);
  for(unsigned n=lo;n<=hi&&n<=rs.maxtweak;n++) effect("tweak",n,[&](const Bytes&t){ Bytes k(rs.maxkey,0x4d); BlockP b(bcreate(d,0,k)); kripto_block_tweak(b.get(),t.data(),t.size()); Bytes o(rs.bs,7); kripto_block_encrypt(b.get(),o.data(),o.data()); return o; },s); }
static void c22hash(unsigned hi_,Src*s,Ctx&x,unsigned lo,unsigned hi){ const char*nm=g_hashes[hi_].name; auto*d=g_hashes[hi_].d; const HashSpec&h=ref::hash(nm); lim("maximum output",kripto_hash_maxout(d),h.maxout); lim("block size",kripto_hash_blocksize(d),h.blocksize); lim("maximum salt",kripto_hash_maxsalt(d),std::min<uint64_t>(h.maxsalt,U));
  auto all=[&](const Bytes&salt,unsigned ol){ Bytes o(ol); if(kripto_hash_all(d,0,cp(salt),salt.size(),"abc",3,o.data(),ol)) fail("kripto_hash_all failed for out_len %u, salt %zu",ol,salt.size()); HashP q(kripto_hash_create(d,0,cp(salt),salt.size(),ol)); if(!q) fail("kripto_hash_create failed"); if(kripto_hash_getdesc(q.get())!=d) fail("object reports another descriptor"); return o; };
  for(unsigned n=lo;n<=hi&&n<=h.maxsalt;n++) effect("salt",n,[&](const Bytes&t){ return all(t,h.maxout?h.maxout:32); },s);
  for(unsigned n=std::max(1u,lo);n<=hi&&(!h.maxout||n<=h.maxout);n++){ Guarded g(n); if(kripto_hash_all(d,0,0,0,"abc",3,g.p(),n)) fail("out_len %u refused",n); g.check("output"); Bytes a=g.get(),b(n); if(kripto_hash_all(d,0,0,0,"abd",3,b.data(),n)) fail("out_len %u refused",n); if(n>=8){ if(a==b) fail("no effect"); Bytes t(a.begin()+n-8,a.end()); if(t==Bytes(8,0)) fail("the last 8 of %u output bytes are zero",n); } } }
static void c22mac(MacCfg&m,Src*s,Ctx&x,unsigned lo,unsigned hi){ auto*d=m.d; uint64_t mt=m.kind==0?m.h->maxout:m.maxtag,mk=m.b?m.maxkey:U; lim("maximum tag",kripto_mac_maxtag(d),mt); lim("maximum key",kripto_mac_maxkey(d),mk);
  auto run=[&](const Bytes&k,unsigned tl){ MacP q(kripto_mac_create(d,0,k.data(),k.size(),tl)); if(!q) fail("kripto_mac_create failed for key %zu tag %u",k.size(),tl); if(kripto_mac_getdesc(q.get())!=d) fail("object reports another descriptor"); Bytes a(tl),b(tl); kripto_mac_input(q.get(),"message",7); kripto_mac_tag(q.get(),a.data(),tl); if(m.b) for(int i=0;i<3;i++){ char t[2]={(char)i,9}; if(kripto_mac_all(d,0,k.data(),k.size(),t,2,b.data(),tl)) fail("mac_all"); a.insert(a.end(),b.begin(),b.end()); } return a; };
  for(unsigned n=std::max(1u,lo);n<=hi&&n<=std::min<uint64_t>(mk,700);n++) effect("key",n,[&](const Bytes&k){ return run(k,m.maxtag); },s);
  for(unsigned n=std::max(1u,lo);n<=hi&&n<=m.maxtag;n++){ Bytes k(std::min<unsigned>(m.maxkey,16),0x31); Bytes a=run(k,n); if(n>=8){ Bytes t(a.begin()+n-8,a.begin()+n); if(t==Bytes(8,0)) fail("the last 8 of %u tag bytes are zero",n); } } }
static void c22stream(StreamCfg&c,Src*s,Ctx&x,unsigned lo,unsigned hi){ auto*d=c.d; static const uint64_t mk[]={32,32,256,99,49,U,U,U},mi[]={24,24,0,U,U,U,U,U}; uint64_t wk=c.b?c.b->maxkey:mk[c.nat],wi=c.b?c.mode?c.b->bs:0:mi[c.nat]; lim("maximum key",kripto_stream_maxkey(d),wk); lim("maximum IV",kripto_stream_maxiv(d),wi);
  auto run=[&](const Bytes&k,const Bytes&iv){ StreamP q(kripto_stream_create(d,0,k.data(),k.size(),cp(iv),iv.size())); if(!q) fail("kripto_stream_create failed for key %zu IV %zu",k.size(),iv.size()); if(kripto_stream_getdesc(q.get())!=d) fail("object reports another descriptor"); lim("length multiple",kripto_stream_multof(q.get()),c.multof); Bytes o(4*c.unit); for(size_t i=0;i<o.size();i++) o[i]=i/c.unit*3; kripto_stream_encrypt(q.get(),o.data(),o.data(),o.size()); return o; };
  Bytes fk(std::min<uint64_t>(wk,16)); for(size_t i=0;i<fk.size();i++) fk[i]=i*29+3;
  for(unsigned n=std::max(1u,lo);n<=hi&&n<=std::min<uint64_t>(wk,500);n++) effect("key",n,[&](const Bytes&k){ return run(k,Bytes()); },s);
  run(fk,Bytes()); for(unsigned n=std::max(1u,lo);n<=hi&&n<=std::min<uint64_t>(wi,500);n++) effect("IV",n,[&](const Bytes&iv){ return run(fk,iv); },s); }
static void c22ae(AeCfg&c,Src*s,Ctx&x,unsigned lo,unsigned hi){ auto*d=c.d; uint64_t wk,wi,wt; if(!c.e2){ wk=c.b->maxkey; wi=wt=c.b->bs; } else { static const uint64_t mk[]={32,32,256,99,49,U,U,U},mi[]={24,24,0,U,U,U,U,U}; uint64_t sk=c.st.b?c.st.b->maxkey:mk[c.st.nat]; (void)mi; uint64_t k=c.mc.b?c.mc.maxkey:U; wk=std::min(sk+k,U); wi=c.st.b?c.st.mode?c.st.b->bs:0:mi[c.st.nat]; wt=c.mc.kind==0?c.mc.h->maxout:c.mc.maxtag; }
  lim("maximum key",kripto_ae_maxkey(d),wk); lim("maximum IV",kripto_ae_maxiv(d),wi); lim("maximum tag",kripto_ae_maxtag(d),wt); unsigned tl=c.maxtag;
  auto run=[&](const Bytes&k,const Bytes&iv,unsigned t){ AeP q(kripto_ae_create(d,0,k.data(),k.size(),cp(iv),iv.size(),t)); if(!q) fail("kripto_ae_create failed for key %zu IV %zu tag %u",k.size(),iv.size(),t); if(kripto_ae_getdesc(q.get())!=d) fail("object reports another descriptor"); lim("length multiple",kripto_ae_multof(q.get()),c.multof); Bytes o(2*c.unit+2*c.multof); o.resize(o.size()/c.multof*c.multof); kripto_ae_encrypt(q.get(),o.data(),o.data(),o.size()); Bytes g(t); kripto_ae_tag(q.get(),g.data(),t); o.insert(o.end(),g.begin(),g.end()); return o; };
  Bytes fk(std::min<uint64_t>(c.maxkey,32)); for(size_t i=0;i<fk.size();i++) fk[i]=i*31+7; if(fk.size()<c.minkey) fk.resize(c.minkey,9);
  for(unsigned n=std::max(c.minkey,lo);n<=hi&&n<=std::min<uint64_t>(wk,700);n++) effect("key",n,[&](const Bytes&k){ return run(k,Bytes(),tl); },s);
  for(unsigned n=std::max(1u,lo);n<=hi&&n<=std::min<uint64_t>(wi,500);n++) effect("nonce",n,[&](const Bytes&iv){ return run(fk,iv,tl); },s);
  for(unsigned n=std::max(1u,lo);n<=hi&&n<=tl;n++){ Bytes a=run(fk,Bytes(),n); if(n>=8){ Bytes t(a.end()-8,a.end()); if(t==Bytes(8,0)) fail("the last 8 of %u tag bytes are zero",n); } } }
static void c22(Src&s,Ctx&x){ x.nt(); unsigned n; switch(s.strat(5)){
  case 0: { unsigned i=s.strat(n_blocks); n=1+s.draw(s.draw(2)?32:260); x.say("%s length %u",g_blocks[i].name,n); c22block(i,&s,x,n,n); break; }
  case 1: { unsigned i=s.strat(n_hashes); n=1+s.draw(s.draw(2)?64:600); x.say("hash %s length %u",g_hashes[i].name,n); c22hash(i,&s,x,n,n); break; }
  case 2: { MacCfg m; mac_cfg(m,s.strat(mac_variants())); n=1+s.draw(s.draw(2)?64:300); x.say("%s length %u",m.name.c_str(),n); c22mac(m,&s,x,n,n); break; }
  case 3: { StreamCfg c; stream_cfg(c,s.strat(stream_variants())); n=1+s.draw(s.draw(2)?32:300); x.say("%s length %u",c.name.c_str(),n); c22stream(c,&s,x,n,n); break; }
  default: { AeCfg c; do { c.~AeCfg(); new(&c) AeCfg(); pick_ae(s,c,false); } while(c.weak); n=1+s.draw(s.draw(2)?40:400); x.say("%s length %u",c.name.c_str(),n); c22ae(c,&s,x,n,n); } } }
static void c22fix(uint64_t i,Ctx&x){ x.nt(); if(i<n_blocks){ x.say("%s: limits, every key and tweak length",g_blocks[i].name); x.label("block"); c22block(i,0,x,1,300); return; } i-=n_blocks; if(i<n_hashes){ x.say("hash %s: limits, every salt and output length",g_hashes[i].name); x.label("hash"); c22hash(i,0,x,1,300); return; } i-=n_hashes;
  if(i<mac_variants()){ MacCfg m; mac_cfg(m,i); x.say("%s: limits, every key and tag length",m.name.c_str()); x.label("mac"); c22mac(m,0,x,1,300); return; } i-=mac_variants(); if(i<stream_variants()){ StreamCfg c; stream_cfg(c,i); x.say("%s: limits, every key and IV length",c.name.c_str()); x.label("stream"); c22stream(c,0,x,1,300); return; } i-=stream_variants();
  if(i<n_blocks){ AeCfg c; ae_eax(c,i); x.say("%s: limits, every key, nonce and tag length",c.name.c_str()); x.label("ae"); c22ae(c,0,x,1,300); return; } i-=n_blocks;
  if(i<255){ unsigned bs=i+1; x.say("descriptors over a custom cipher of block size %u",bs); x.label("custom block sizes"); auto&t=toy(bs); for(int m=0;m<5;m++){ StreamCfg c; stream_toy(c,m,bs); lim("mode maximum key",kripto_stream_maxkey(c.d),255); lim("mode maximum IV",kripto_stream_maxiv(c.d),m?bs:0); Bytes k(5,1); StreamP q(kripto_stream_create(c.d,0,k.data(),5,0,0)); if(!q) fail("create"); lim("length multiple",kripto_stream_multof(q.get()),m<2?bs:1); } for(int xc=0;xc<2;xc++){ MacCfg m; mac_toy(m,xc,bs); lim("maximum tag",kripto_mac_maxtag(m.d),bs); lim("maximum key",kripto_mac_maxkey(m.d),255); } AeDesc e(leax(t.d)); if(!e) fail("eax"); lim("eax key",kripto_ae_maxkey(e.get()),255); lim("eax nonce",kripto_ae_maxiv(e.get()),bs); lim("eax tag",kripto_ae_maxtag(e.get()),bs); return; } i-=255;
  // EAX2: every pair of a sample
  unsigned sv=i/8,mv=(i*37+i/8*11)%mac_variants(); AeCfg c; if(!ae_eax2(c,sv%stream_variants(),mv)) return; x.say("%s: limits",c.name.c_str()); c22ae(c,0,x,2,60); x.label("eax2"); }
static Reg r22({"C22","descriptor family and member enumerated over the case index, length drawn; reported limits compared with the specification table, each length must be accepted and its first and last bytes must change the result, objects must report their descriptor and length multiple. Systematic part: every descriptor with every length to 300 (keys, tweaks, salts, IVs, outputs, tags), modes/MACs/EAX over every block size, EAX2 pairs. Non-trivial: every case.",1200000,20000000,c22,43+16+120+223+43+255+8*223,c22fix,120,"key bytes are taken from unstructured contents so that parity bits and weak keys do not hide an effect"});
