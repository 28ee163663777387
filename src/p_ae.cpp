// C10, C11: authenticated modes
#include "aecfg.h"
#include "big.h"
#include <sys/mman.h>
extern "C" {
#include <kripto/stream/ctr.h>
#include <kripto/mac/omac.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
}
static kripto_ae* acreate(const AeCfg&c,unsigned r,const Bytes&k,const Bytes&iv,unsigned tl){ kripto_ae*q=kripto_ae_create(c.d,r,k.data(),k.size(),cp(iv),iv.size(),tl); if(!q) fail("kripto_ae_create failed"); return q; }
static unsigned pick_tl(Src&s,const AeCfg&c){ unsigned k=s.draw(3); return k==0?c.maxtag:k==1?1+s.draw(c.maxtag):c.maxtag-(unsigned)s.draw(std::min(c.maxtag,5u)); }
// run header and message pieces in an interleaved order
static Bytes drive(Src&s,const AeCfg&c,kripto_ae*q,const Bytes&hdr,const Bytes&in,bool dec,unsigned order){ auto hs=s.split(hdr.size(),c.unit,1),ms=s.split(in.size(),c.unit,c.multof); Bytes out(in.size()); size_t hi=0,mi=0,hp=0,mp_=0; bool ip=s.draw(2); if(ip) out=in;
  while(hi<hs.size()||mi<ms.size()){ bool h=hi<hs.size()&&(mi==ms.size()||order==0||(order==2&&s.draw(2))); if(h){ kripto_ae_header(q,cp(hdr)+hp,hs[hi]); hp+=hs[hi++]; } else { Guarded g(ip?ms[mi]:0); const uint8_t*src=cp(in)+mp_; uint8_t*dst=mp(out)+mp_; (void)g; if(ip) src=dst; if(dec) kripto_ae_decrypt(q,src,dst,ms[mi]); else kripto_ae_encrypt(q,src,dst,ms[mi]); mp_+=ms[mi++]; } } return out; }
static size_t pick_len(Src&s,const AeCfg&c){ unsigned k=s.draw(120); size_t n=k==119?s.draw(9000):s.len(4*c.unit+9,c.unit); return n/c.multof*c.multof; }
static kripto_ae* aobj(Src&s,Ctx&x,const AeCfg&c,unsigned r,const Bytes&key,const Bytes&nonce,unsigned tl){ if(!aged(s,x)) return acreate(c,r,key,nonce,tl); Bytes k=pick_aekey(s,c); unsigned t2=pick_tl(s,c); AeP q(acreate(c,pick_rounds(s,c.rounds(k.size()),1,4),k,pick_nonce(s,c),t2)); if(s.draw(2)){ Bytes b=s.bytes(s.len(2*c.unit,c.unit)); kripto_ae_header(q.get(),cp(b),b.size()); } if(s.draw(2)){ size_t n=s.len(2*c.unit+3,c.unit); n-=n%c.multof; Bytes b=s.bytes(n); if(s.draw(2)) kripto_ae_encrypt(q.get(),cp(b),mp(b),n); else kripto_ae_decrypt(q.get(),cp(b),mp(b),n); } if(s.draw(2)){ Bytes o(t2); kripto_ae_tag(q.get(),o.data(),t2); } kripto_ae*n=kripto_ae_recreate(q.get(),r,key.data(),key.size(),cp(nonce),nonce.size(),tl); q.release(); if(!n) fail("kripto_ae_recreate failed"); return n; }
static void c10(Src&s,Ctx&x){ AeCfg c; pick_ae(s,c,true); Bytes key=pick_aekey(s,c),nonce=pick_nonce(s,c),hdr=s.bytes(s.draw(4)?s.len(3*c.unit+5,c.unit):0),in=s.bytes(pick_len(s,c)); unsigned tl=pick_tl(s,c),n=s.chance(1,5)?1+s.draw(tl):tl; unsigned r=pick_rounds(s,c.rounds(key.size()),1,4); bool dec=s.chance(1,3);
  x.say("%s r=%u key[%zu]=%s nonce[%zu]=%s header[%zu] %s[%zu] tag_len=%u",c.name.c_str(),r,key.size(),hex(key,16).c_str(),nonce.size(),hex(nonce,16).c_str(),hdr.size(),dec?"ciphertext":"plaintext",in.size(),tl); x.label(c.e2?"EAX2":"EAX"); if(nonce.size()!=c.unit) x.label("nonce not one block");
  auto w=c.model(r,key,nonce,hdr,in,dec,tl); AeP q(aobj(s,x,c,r,key,nonce,tl)); if(kripto_ae_multof(q.get())!=c.multof) fail("multof is %u, expected %u",kripto_ae_multof(q.get()),c.multof); Bytes out=drive(s,c,q.get(),hdr,in,dec,s.draw(3)); Guarded t(n); kripto_ae_tag(q.get(),t.p(),n); t.check("tag"); eq(out,w.out,dec?"plaintext":"ciphertext"); Bytes wt=w.tag; wt.resize(n); eq(t.get(),wt,"tag"); x.nt(); }
// one call above 2^32 bytes against the same bytes in pieces
static void c10big(uint64_t i,Ctx&x){ static const char*const what[]={"decrypt","header","encrypt"}; unsigned w=i%3; bool e2=i/3; const uint8_t*p=big_region(); uint8_t*o=big_scratch(); if(!p||!o) return; size_t len=(4ull<<30)+4103; const kripto_desc_block*f=fast_cipher(); struct Own { kripto_desc_stream*s=0; kripto_desc_mac*m=0; kripto_desc_ae*a=0; uint8_t*big=0; size_t n=0; ~Own(){ free(a); free(s); free(m); if(big) munmap(big,n); } } own; if(e2){ own.s=kripto_stream_ctr(f); own.m=kripto_mac_omac(f); if(!own.s||!own.m) fail("constructor"); own.a=kripto_ae_eax2(own.s,own.m); } else own.a=kripto_ae_eax(f); if(!own.a) fail("constructor");
  x.say("%s over a custom cipher: one %s call of %zu bytes against pieces",e2?"EAX2":"EAX",what[w],len); uint8_t*out=o; if(w==2){ own.big=(uint8_t*)mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(own.big==MAP_FAILED){ own.big=0; x.label("no memory for the large output"); return; } own.n=len; out=own.big; }
  Bytes key(40,7),iv(20,9),t[2],end[2],after[2]; for(int k=0;k<2;k++){ AeP q(kripto_ae_create(own.a,0,key.data(),key.size(),iv.data(),iv.size(),16)); if(!q) fail("kripto_ae_create failed"); auto run=[&](const uint8_t*a,uint8_t*b,size_t n){ if(w==0) kripto_ae_decrypt(q.get(),a,b,n); else if(w==1) kripto_ae_header(q.get(),a,n); else kripto_ae_encrypt(q.get(),a,b,n); }; if(k==0) run(p,out,len); else for(size_t d=0;d<len;){ size_t n=std::min<size_t>(len-d,BIG_UNIT/2); run(p+d,w==2?o:o+d,n); if(w==2&&memcmp(o,out+d,n)) fail("the ciphertext of a single call above 4 GiB differs from that of pieces, in the piece at %zu",d); d+=n; } if(w==0) end[k].assign(out+len-4096,out+len); Bytes a(100); kripto_ae_encrypt(q.get(),p,a.data(),100); after[k]=a; t[k]=Bytes(16); kripto_ae_tag(q.get(),t[k].data(),16); if(k){ Bytes u[2],g[2]; for(int z=0;z<2;z++){ if(z) q.reset(kripto_ae_create(own.a,0,key.data(),key.size(),iv.data(),iv.size(),16)); else q.reset(kripto_ae_recreate(q.release(),0,key.data(),key.size(),iv.data(),iv.size(),16)); if(!q) fail("create or recreate failed"); u[z]=Bytes(300); g[z]=Bytes(16); kripto_ae_header(q.get(),p,100); kripto_ae_encrypt(q.get(),p,u[z].data(),300); kripto_ae_tag(q.get(),g[z].data(),16); } eq(u[0],u[1],"output of an object recreated after more than 4 GiB"); eq(g[0],g[1],"tag of an object recreated after more than 4 GiB"); } }
  eq(end[0],end[1],"end of a single call above 4 GiB"); eq(after[0],after[1],"call after a single call above 4 GiB"); eq(t[0],t[1],"tag after a single call above 4 GiB"); x.label("single call above 4 GiB"); x.nt(); }
static const unsigned NLONG=24;
static void c10long(uint64_t i,Ctx&x){ static const size_t L[]={65539,(1u<<24)+7,65700}; unsigned mvs[]={0,n_hashes+32,mac_variants()-1,mac_variants()-3}; AeCfg c; unsigned sv=3+(i/3)%(n_streams-3),mv=mvs[(i/3+i)%4]; if(i%3==1&&mv>=n_hashes&&mv<mac_variants()-n_macs) mv=0; if(!ae_eax2(c,sv,mv)) fail("constructor"); size_t n=L[i%3]+i; const uint8_t*b=big_region(); if(!b) return; unsigned kn=c.mc.b?24:i%3==2?66000:40; if(c.st.nat<5&&kn>40) kn=40; unsigned r=0; x.say("%s, key of %u, nonce of %zu bytes",c.name.c_str(),kn,n); Bytes key(b+i,b+i+kn),nonce(b+77,b+77+n),hdr(20,3),in(300,0x37),o(300),t(c.maxtag); auto w=c.model(r,key,nonce,hdr,in,false,c.maxtag); AeP q(acreate(c,r,key,nonce,c.maxtag)); for(int k=0;k<2;k++){ if(k){ q.reset(kripto_ae_recreate(q.release(),r,key.data(),kn,nonce.data(),n,c.maxtag)); if(!q) fail("kripto_ae_recreate failed"); } kripto_ae_header(q.get(),hdr.data(),hdr.size()); kripto_ae_encrypt(q.get(),in.data(),o.data(),in.size()); kripto_ae_tag(q.get(),t.data(),t.size()); eq(o,w.out,"ciphertext"); eq(t,w.tag,"tag"); } x.label("long nonce"); x.nt(); }
static void c10fix(uint64_t i,Ctx&x){ if(i>=261) return c10long(i-261,x); if(i>=255) return c10big(i-255,x); unsigned bs=i+1; AeCfg c; ae_eax_toy(c,bs); x.say("%s",c.name.c_str()); for(unsigned v=0;v<4;v++){ Bytes key(1+(v*61+bs)%255,(uint8_t)(v+1)),nonce(v==0?bs:v==1?bs-1:v==2?bs/2:0),hdr(v==0?0:v*bs-1),in(2*bs+v); for(size_t j=0;j<nonce.size();j++) nonce[j]=j*7+v; for(size_t j=0;j<hdr.size();j++) hdr[j]=j*3; for(size_t j=0;j<in.size();j++) in[j]=j^0x5a; auto w=c.model(0,key,nonce,hdr,in,false,bs); AeP q(acreate(c,0,key,nonce,bs)); Bytes o(in.size()),t(bs); kripto_ae_header(q.get(),cp(hdr),hdr.size()); kripto_ae_encrypt(q.get(),in.data(),o.data(),in.size()); kripto_ae_tag(q.get(),t.data(),bs); eq(o,w.out,"ciphertext"); eq(t,w.tag,"tag"); } x.label("custom block sizes"); x.nt(); }
static Reg r10({"C10","EAX over every block cipher (and a custom cipher of every block size) and EAX2 over every stream cipher or mode (enumerated) with any MAC (drawn); key, nonce, header, message, tag length, rounds, direction and the split and interleaving of header and message drawn; output and tag compared with an independent model. Systematic part: EAX at all block sizes 1..255; single calls above 2^32 bytes; EAX2 nonces longer than 2^16 and 2^24 bytes. Non-trivial: every case.",600000,12000000,c10,255+6+NLONG,c10fix,300,"reference model in /verif/ref; EAX2 has no published specification: the model fixes the construction described in lib/ae/eax2.c (halved key, MAC of the nonce as IV)"});

static Bytes flip(Src&s,const Bytes&b,size_t lim,std::string&d,bool resize){ Bytes r=b; if(lim>r.size()) lim=r.size(); unsigned how=resize?s.draw(4):0; char t[64]; if(!lim&&how==0) how=2; if(how<=1&&lim){ unsigned bit=s.draw(8*lim); r[bit/8]^=1<<(bit%8); snprintf(t,64,"bit %u flipped",bit); } else if(how==3&&!r.empty()){ size_t c=1+s.draw(r.size()); r.resize(r.size()-c); snprintf(t,64,"%zu bytes cut",c); } else { size_t c=1+s.draw(3); r.resize(r.size()+c,s.draw(2)?0:0x80); snprintf(t,64,"%zu bytes appended",c); } d=t; return r; }
struct AS { AeP q; AeCfg*c; unsigned r,tl; Bytes key,nonce,hdr,in,out; bool dec,done; };
static void c11(Src&s,Ctx&x){ AeCfg c; pick_ae(s,c,true); AeCfg c2; bool two=s.chance(1,3); if(two) pick_ae(s,c2,false); std::vector<AS> v(1+s.draw(3)); unsigned re=0,forged=0;
  auto params=[&](AS&a){ a.key=pick_aekey(s,*a.c); a.nonce=pick_nonce(s,*a.c); a.tl=pick_tl(s,*a.c); a.r=pick_rounds(s,a.c->rounds(a.key.size()),1,5); a.hdr.clear(); a.in.clear(); a.out.clear(); a.dec=s.chance(1,3); a.done=false; x.say(" %s r=%u key[%zu] nonce[%zu] tl=%u %s",a.c->name.c_str(),a.r,a.key.size(),a.nonce.size(),a.tl,a.dec?"dec":"enc"); };
  auto fresh=[&](AS&a,const Bytes&in,bool dec,Bytes&out,unsigned n,const Bytes*verify){ AeP q(acreate(*a.c,a.r,a.key,a.nonce,a.tl)); out=Bytes(in.size()); kripto_ae_header(q.get(),cp(a.hdr),a.hdr.size()); if(dec) kripto_ae_decrypt(q.get(),cp(in),mp(out),in.size()); else kripto_ae_encrypt(q.get(),cp(in),mp(out),in.size()); Bytes t(n); if(verify){ int ok=kripto_ae_verify(q.get(),verify->data(),n); t.assign(1,ok!=0); } else kripto_ae_tag(q.get(),t.data(),n); return t; };
  auto fin=[&](AS&a){ a.done=true; unsigned n=s.chance(1,5)?1+s.draw(a.tl):a.tl; Bytes o; Bytes t=fresh(a,a.in,a.dec,o,n,0); eq(a.out,o,"output after this history differs from a fresh object"); Bytes back; const Bytes&ct=a.dec?a.in:a.out;
    unsigned k=s.draw(4); if(k==0){ Guarded g(n); kripto_ae_tag(a.q.get(),g.p(),n); g.check("tag"); x.say(" tag"); eq(g.get(),t,"tag after this history differs from a fresh object"); }
    else if(k==1){ x.say(" verify genuine"); Guarded g(t); if(!kripto_ae_verify(a.q.get(),g.p(),n)) fail("verify rejects the correct tag"); eq(g.get(),t,"tag buffer"); }
    else { Bytes f=t; if(s.draw(2)){ unsigned b=s.draw(8*n); f[b/8]^=1<<(b%8); x.say(" verify with tag bit %u flipped",b); } else { unsigned p=s.draw(n),e=1+s.draw(255),p2=s.draw(n); f[p]^=e; if(p2!=p) f[p2]^=e; x.say(" verify with tag bytes %u,%u changed",p,p2); } if(kripto_ae_verify(a.q.get(),f.data(),n)) fail("verify accepts a modified tag"); forged++; x.label("modified tag"); }
    // the other direction in other pieces on a fresh object
    { AeP q(acreate(*a.c,a.r,a.key,a.nonce,a.tl)); Bytes b=drive(s,*a.c,q.get(),a.hdr,a.out,!a.dec,s.draw(3)); eq(b,a.in,a.dec?"encrypting the decryption does not give back the ciphertext":"decryption does not give back the plaintext"); if(!kripto_ae_verify(q.get(),t.data(),n)) fail("verify rejects a genuine message"); x.label("round trip"); }
    (void)ct; };
  for(auto&a:v){ a.c=&a!=&v[0]&&two?&c2:&c; x.say(" [%zu]",(size_t)(&a-&v[0])); params(a); a.q.reset(acreate(*a.c,a.r,a.key,a.nonce,a.tl)); if(kripto_ae_getdesc(a.q.get())!=a.c->d) fail("descriptor"); }
  unsigned n=2+s.draw(9); for(unsigned i=0;i<n;i++){ AS&a=v[s.draw(v.size())]; x.say("; [%zu]",(size_t)(&a-&v[0])); unsigned k=s.draw(8);
    if(k<3&&!a.done){ size_t l=pick_len(s,*a.c); Bytes b=s.bytes(l); Bytes o; if(s.draw(2)){ Guarded g(b,s.draw(8)); if(a.dec) kripto_ae_decrypt(a.q.get(),g.p(),g.p(),l); else kripto_ae_encrypt(a.q.get(),g.p(),g.p(),l); g.check("in-place output"); o=g.get(); } else { Guarded gi(b,s.draw(8)),go(l,s.draw(8)); if(a.dec) kripto_ae_decrypt(a.q.get(),gi.p(),go.p(),l); else kripto_ae_encrypt(a.q.get(),gi.p(),go.p(),l); go.check("output"); eq(gi.get(),b,"input buffer"); o=go.get(); } x.say(" msg %zu",l); a.in.insert(a.in.end(),b.begin(),b.end()); a.out.insert(a.out.end(),o.begin(),o.end()); }
    else if(k<5&&!a.done){ Bytes b=s.bytes(s.len(2*a.c->unit+3,a.c->unit)); kripto_ae_header(a.q.get(),cp(b),b.size()); x.say(" hdr %zu",b.size()); a.hdr.insert(a.hdr.end(),b.begin(),b.end()); }
    else if(k==5&&!a.done) fin(a);
    else { x.say(" recreate"); if(!a.done&&a.in.size()) x.label("recreated in mid-message"); unsigned ot=a.tl; params(a); if(a.tl>ot) x.label("recreated with a longer tag"); kripto_ae*nq=kripto_ae_recreate(a.q.get(),a.r,a.key.data(),a.key.size(),cp(a.nonce),a.nonce.size(),a.tl); if(!nq){ a.q.release(); fail("kripto_ae_recreate failed"); } a.q.release(); a.q.reset(nq); if(kripto_ae_getdesc(nq)!=a.c->d) fail("descriptor after recreate"); if(kripto_ae_multof(nq)!=a.c->multof) fail("multof after recreate"); re++; } }
  for(auto&a:v) if(!a.done){ x.say("; [%zu]",(size_t)(&a-&v[0])); fin(a); }
  // forgery: any other part changed
  if(!c.weak&&c.maxtag>=8){ unsigned kmin=std::min(c.maxkey,c.e2?32u:16u); Bytes key=s.random(kmin+s.draw(std::min(c.maxkey-kmin,64u)+1)),nonce=pick_nonce(s,c),hdr=s.bytes(s.draw(2*c.unit)),in=s.bytes(pick_len(s,c)),ct(in.size()); unsigned tl=std::max(8u,pick_tl(s,c)); AeP q(acreate(c,0,key,nonce,tl)); kripto_ae_header(q.get(),cp(hdr),hdr.size()); kripto_ae_encrypt(q.get(),cp(in),mp(ct),in.size()); Bytes t(tl); kripto_ae_tag(q.get(),t.data(),tl);
    Bytes k2=key,n2=nonce,h2=hdr,c2=ct; std::string d; unsigned what=s.draw(4); bool des=c.name.find("des")!=std::string::npos;
    if(what==0&&!des){ size_t mk=key.size(),sk; if(c.e2) c.split(key.size(),mk,sk); k2=flip(s,key,mk,d,false); } else if(what==1&&c.maxiv){ n2=flip(s,nonce,nonce.size(),d,true); if(n2.size()>kripto_ae_maxiv(c.d)){ n2=nonce; n2[0]^=1; d="bit 0 flipped"; } } else if(what<=2) { h2=flip(s,hdr,hdr.size(),d,true); what=2; } else if(c.multof==1){ c2=flip(s,ct,ct.size(),d,true); } else { if(ct.empty()||s.draw(2)){ c2.resize(ct.size()+c.multof); d="one block appended"; } else if(s.draw(2)){ c2.resize(ct.size()-c.multof); d="one block cut"; } else c2=flip(s,ct,ct.size(),d,false); what=3; }
    static const char*wn[]={"key","nonce","header","ciphertext"}; x.say("; forgery: %s %s (key[%zu] nonce[%zu] header[%zu] ct[%zu] tl=%u)",wn[what],d.c_str(),key.size(),nonce.size(),hdr.size(),ct.size(),tl); x.label(std::string("forged ")+wn[what]);
    AeP f(acreate(c,0,k2,n2,tl)); drive(s,c,f.get(),h2,c2,true,s.draw(3)); if(kripto_ae_verify(f.get(),t.data(),tl)) fail("%s: verify accepts a message with its %s modified",c.name.c_str(),wn[what]); forged++; }
  if(forged||re) x.nt(); }
static void c11fix(uint64_t i,Ctx&x){ AeCfg c; if(i<n_blocks) ae_eax(c,i); else { i-=n_blocks; if(!ae_eax2(c,(i*11)%stream_variants(),i%mac_variants())) return; } x.say("%s: all single-bit tag changes at all tag lengths",c.name.c_str()); Bytes key(c.e2?16:std::min(c.maxkey,16u)),in(2*c.unit),ct(in.size()),hdr(5,1),nonce(std::min(c.maxiv,8u),2); if(c.e2){ size_t mk,sk; c.split(16,mk,sk); } for(size_t j=0;j<key.size();j++) key[j]=j*31+1; in.resize(in.size()/c.multof*c.multof); ct.resize(in.size());
  for(unsigned tl=1;tl<=c.maxtag;tl++){ AeP q(acreate(c,0,key,nonce,tl)); kripto_ae_header(q.get(),hdr.data(),5); kripto_ae_encrypt(q.get(),in.data(),ct.data(),in.size()); Bytes t(tl),o(ct.size()); kripto_ae_tag(q.get(),t.data(),tl); unsigned step=tl>20?13:tl>8?3:1; if(c.maxtag>64) step=41; for(unsigned b=0;;b+=step){ if(b>8*tl) b=8*tl; Bytes f=t; if(b<8*tl) f[b/8]^=1<<(b%8); AeP z(acreate(c,0,key,nonce,tl)); kripto_ae_header(z.get(),hdr.data(),5); kripto_ae_decrypt(z.get(),ct.data(),o.data(),ct.size()); int v=kripto_ae_verify(z.get(),f.data(),tl); if(b<8*tl&&v) fail("tag length %u: verify accepts a tag with bit %u flipped",tl,b); if(b==8*tl){ if(!v) fail("tag length %u: verify rejects a genuine message",tl); break; } } eq(o,in,"plaintext"); } x.nt(); }
static Reg r11({"C11","histories over 1..3 live objects (EAX over every block cipher, EAX2 over every stream cipher or mode enumerated, with any MAC): header and message pieces, in place or not, tag / verify genuine / verify modified tag, recreate at any point; results compared with a fresh object, inverted by a fresh object in other pieces, and verified; then one of key, nonce, header, ciphertext is changed, cut or extended and must be rejected. Systematic part: every tag length and (sampled) single-bit tag change. Non-trivial: a forgery or a recreate.",600000,12000000,c11,43+120,c11fix,300,"modified key, nonce, header and ciphertext are taken to be rejected only for tags of at least 8 bytes at full rounds (2^-64 chance); for EAX2 only the MAC half of the key is covered by the tag"});
