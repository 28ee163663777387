// C08, C09: stream ciphers and block modes
#include "streamcfg.h"
#include "toy.h"
#include "big.h"
#include <malloc.h>
static kripto_stream* screate(const StreamCfg&c,unsigned r,const Bytes&k,const Bytes&iv){ kripto_stream*q=kripto_stream_create(c.d,r,k.data(),k.size(),cp(iv),iv.size()); if(!q) fail("kripto_stream_create failed"); return q; }
enum { ENC, DEC, PRNG };
static void op(kripto_stream*q,int o,const uint8_t*in,uint8_t*out,size_t n){ if(o==ENC) kripto_stream_encrypt(q,in,out,n); else if(o==DEC) kripto_stream_decrypt(q,in,out,n); else kripto_stream_prng(q,out,n); }
static kripto_stream* sobj(Src&s,Ctx&x,const StreamCfg&c,unsigned r,const Bytes&key,const Bytes&iv){ if(!aged(s,x)) return screate(c,r,key,iv); Bytes k=pick_streamkey(s,c); StreamP q(screate(c,pick_rounds(s,c.rounds(k.size()),1,3),k,pick_iv(s,c))); if(s.draw(3)){ size_t n=s.len(3*c.unit+3,c.unit); n-=n%c.multof; Bytes b=s.bytes(n); op(q.get(),s.draw(2),cp(b),mp(b),n); } kripto_stream*n=kripto_stream_recreate(q.get(),r,key.data(),key.size(),cp(iv),iv.size()); q.release(); if(!n) fail("kripto_stream_recreate failed"); return n; }
static void c08(Src&s,Ctx&x){ StreamCfg c; pick_stream(s,c,true); Bytes key=pick_streamkey(s,c),iv=pick_iv(s,c); unsigned r=pick_rounds(s,c.rounds(key.size()),1,3); unsigned k=s.draw(150); size_t n=k==149?s.draw(70000):k>=144?s.draw(9000):s.len(c.b?6*c.unit+9:5*c.unit+40,c.unit); n-=n%c.multof; int o=c.has_prng()?s.draw(3):s.draw(2); Bytes in=o==PRNG?Bytes(n):s.bytes(n),out(n);
  x.say("%s rounds=%u key[%zu]=%s iv[%zu]=%s %s %zu bytes",c.name.c_str(),r,key.size(),hex(key,20).c_str(),iv.size(),hex(iv,32).c_str(),o==ENC?"encrypt":o==DEC?"decrypt":"prng",n); x.label(c.mode<0?g_streams[c.nat].name:g_modes[c.mode]);
  StreamP q(sobj(s,x,c,r,key,iv)); if(kripto_stream_multof(q.get())!=c.multof) fail("multof is %u, expected %u",kripto_stream_multof(q.get()),c.multof); auto sp=s.draw(2)?std::vector<size_t>{n}:s.split(n,c.unit,c.multof); size_t p=0; for(size_t l:sp){ op(q.get(),o,cp(in)+p,mp(out)+p,l); p+=l; } eq(out,c.model(r,key,iv,in,o==DEC),o==ENC?"ciphertext":o==DEC?"plaintext":"keystream"); if(n) x.nt(); }
// systematic: every mode over every block size; counter carries at every byte; long keystreams; the 2^32-block carry of ChaCha and Salsa20
static void fastforward(bool chacha,unsigned ivlen,Ctx&x){ // find the block counter in the object by what it does and move it next to 2^32
  StreamCfg c; stream_cfg(c,chacha?0:1); x.say("%s iv[%u] across block 2^32",c.name.c_str(),ivlen); Bytes key(32),iv(ivlen); for(int i=0;i<32;i++) key[i]=i*7+1; for(unsigned i=0;i<ivlen;i++) iv[i]=i*31+9; auto ks=[&](uint64_t b,size_t n){ return chacha?ref::chacha_ks(0,key,iv,n,b):ref::salsa20_ks(0,key,iv,n,b); };
  StreamP q(screate(c,0,key,iv)); Bytes o(64),a,b; uint8_t*m=(uint8_t*)q.get(); size_t sz=malloc_usable_size(m)&~(size_t)3; kripto_stream_prng(q.get(),o.data(),64); a.assign(m,m+sz); kripto_stream_prng(q.get(),o.data(),64); b.assign(m,m+sz); std::vector<size_t> cand; for(size_t i=0;i+4<=sz;i+=4){ uint32_t u,v; memcpy(&u,&a[i],4); memcpy(&v,&b[i],4); if(v==u+1&&v<16) cand.push_back(i); }
  if(cand.size()!=1){ x.label("counter not located (skipped)"); return; } size_t at=cand[0]; uint32_t cur; memcpy(&cur,&b[at],4); // blocks 0,1 were produced when the counter reads cur
  auto seek=[&](uint32_t blk){ uint32_t v=blk-2+cur; memcpy(m+at,&v,4); }; for(uint32_t t:{100u,77777u}){ seek(t); kripto_stream_prng(q.get(),o.data(),64); if(o!=ks(t,64)){ x.label("counter not located (skipped)"); return; } }
  seek(0xFFFFFFFEu); Bytes g(64*5); kripto_stream_prng(q.get(),g.data(),g.size()); eq(g,ks(0xFFFFFFFEu,g.size()),"keystream across block 2^32"); x.label("2^32 block carry"); x.nt(); }
static const unsigned NLONG=5*8;
static void c08fix(uint64_t i,Ctx&x){ if(i<255){ unsigned bs=i+1; for(unsigned m=0;m<5;m++){ StreamCfg c; stream_toy(c,m,bs); x.say(" %s",c.name.c_str()); for(unsigned v=0;v<4;v++){ Bytes key(1+(bs*3+v*77)%255,(uint8_t)(v+bs)),iv; if(m){ iv.resize(v==0?bs:v==1?bs-1:v==2?bs/2:bs); for(size_t j=0;j<iv.size();j++) iv[j]=v==3?0xff:j*5+v; } size_t n=4*bs+(m<2?0:bs/2+1); Bytes in(n); for(size_t j=0;j<n;j++) in[j]=j*j+7; for(int o=0;o<2;o++){ StreamP q(screate(c,0,key,iv)); Bytes out(n); size_t cut=m<2?bs:bs/3+1; op(q.get(),o,in.data(),out.data(),cut); op(q.get(),o,in.data()+cut,out.data()+cut,n-cut); Bytes w=c.model(0,key,iv,in,o); if(out!=w){ x.say(" key[%zu] iv[%zu] %s",key.size(),iv.size(),o?"decrypt":"encrypt"); eq(out,w,"output"); } } } } x.label("custom block sizes"); x.nt(); return; } i-=255;
  if(i<n_blocks){ auto&rb=rblock(g_blocks[i].name); StreamCfg c; stream_cfg(c,n_streams+5*i+4); x.say("%s carries into every byte",c.name.c_str()); Bytes key(rb.maxkey); for(size_t j=0;j<key.size();j++) key[j]=j*29+3; for(unsigned f=1;f<=rb.bs;f++){ Bytes iv(rb.bs); for(unsigned j=0;j<rb.bs;j++) iv[j]=j>=rb.bs-f?0xff:j*17+1; iv[rb.bs-1]=0xfe; size_t n=5*rb.bs; Bytes o(n); StreamP q(screate(c,0,key,iv)); kripto_stream_prng(q.get(),o.data(),n); Bytes w=c.model(0,key,iv,Bytes(n),false); if(o!=w){ x.say(" iv=%s",hex(iv).c_str()); eq(o,w,"keystream"); } } x.nt(); return; } i-=n_blocks;
  if(i<n_streams){ StreamCfg c; stream_cfg(c,i); size_t n=i>=5?(65536+300)*(size_t)c.unit:i==2?3000000:6000000; if(x.thorough&&i>=5) n*=8; x.say("%s: keystream of %zu bytes",c.name.c_str(),n); Bytes key(16),iv(c.maxiv?8:0); for(int j=0;j<16;j++) key[j]=j*3; Bytes o(n); StreamP q(screate(c,i>=5?8:0,key,iv)); size_t d=0; while(d<n){ size_t l=std::min<size_t>(n-d,65537); kripto_stream_prng(q.get(),&o[d],l); d+=l; } eq(o,c.model(i>=5?8:0,key,iv,Bytes(n),false),"long keystream"); x.label("long keystream"); x.nt(); return; } i-=n_streams;
  if(i<5){ StreamCfg c; stream_cfg(c,n_streams+5*1+i); size_t n=16*70000; x.say("%s: %zu bytes",c.name.c_str(),n); Bytes key(16,3),iv(c.maxiv?c.maxiv:0); Bytes in(n); for(size_t j=0;j<n;j++) in[j]=j*j>>3; for(int o=0;o<2;o++){ Bytes out(n); StreamP q(screate(c,0,key,iv)); op(q.get(),o,in.data(),out.data(),n); eq(out,c.model(0,key,iv,in,o),"long message"); } x.nt(); return; } i-=5;
  // long keys and IVs
  if(i<NLONG){ unsigned k=i%8; static const size_t L[][2]={{65537,12},{16,65539},{(1u<<24)+5,7},{11,(1u<<24)+6},{65600,65537},{(1u<<24)+1,(1u<<24)+3},{(1u<<28)+5,7},{11,(1u<<28)+9}}; if(k>5&&!x.thorough){ x.say("thorough tier"); return; } unsigned v=3+i/8; if(v>=n_streams) return; StreamCfg c; stream_cfg(c,v); size_t kn=L[k][0],in=L[k][1]; if(v<5) kn=std::min<size_t>(kn,c.maxkey); const uint8_t*b=big_region(); if(!b) return; unsigned r=c.rounds(16).empty()?0:c.rounds(16)[0]; x.say("%s rounds=%u, key of %zu, IV of %zu bytes",c.name.c_str(),r,kn,in); Bytes key(b+3,b+3+kn),iv(b+1000,b+1000+in),pt(300,0x37),o(300); Bytes w=c.model(r,key,iv,pt,false); StreamP q(screate(c,r,key,iv)); kripto_stream_encrypt(q.get(),pt.data(),o.data(),300); eq(o,w,"output with a long key or IV"); q.reset(kripto_stream_recreate(q.release(),r,key.data(),kn,iv.data(),in)); if(!q) fail("kripto_stream_recreate failed"); kripto_stream_encrypt(q.get(),pt.data(),o.data(),300); eq(o,w,"output after recreation with a long key or IV"); x.label("long key or IV"); x.nt(); return; } i-=NLONG;
  if(i<6){ static const unsigned iv[]={0,8,13,24,5,20}; fastforward(i%2==0,iv[i],x); return; } }
static Reg r08({"C08","stream cipher or mode x block cipher enumerated over the case index (also a custom cipher of any block size); key, IV (lengths 0..max, values next to a carry), rounds, direction, length and split drawn; output compared with an independent model. Systematic part: all block sizes 1..255 in each mode, CTR carries into every byte for every cipher, keystreams of more than 65536 blocks, keys and IVs longer than 2^16 and 2^24 bytes (thorough: 2^28), the 2^32-block carry of ChaCha/Salsa20 (counter located in the object by observation). Non-trivial: a non-empty output.",1600000,20000000,c08,255+43+8+5+NLONG+6,c08fix,300,"reference model in /verif/ref"});

// ---- C09 ----
struct SS { StreamP q; StreamCfg*c; unsigned r; Bytes key,iv,in,out; int dir; bool mixed=false; };
static void c09(Src&s,Ctx&x){ std::vector<StreamCfg> cf(1+s.draw(2)); for(size_t i=0;i<cf.size();i++) pick_stream(s,cf[i],i==0); std::vector<SS> v(1+s.draw(3)); unsigned ops=0,re=0;
  auto params=[&](SS&a){ a.key=pick_streamkey(s,*a.c); a.iv=pick_iv(s,*a.c); a.r=pick_rounds(s,a.c->rounds(a.key.size()),1,4); a.in.clear(); a.out.clear(); a.dir=s.draw(2); x.say(" %s r=%u key[%zu] iv[%zu] %s",a.c->name.c_str(),a.r,a.key.size(),a.iv.size(),a.dir?"dec":"enc"); };
  // what was processed must be undone by a fresh object working in other pieces, and be what a fresh object produces in one call
  auto check=[&](SS&a){ size_t n=a.in.size(); if(!n) return; Bytes w(n); { StreamP f(screate(*a.c,a.r,a.key,a.iv)); op(f.get(),a.dir,a.in.data(),w.data(),n); } if(a.out!=w) eq(a.out,w,"output depends on history, chunking or aliasing");
    StreamP f(screate(*a.c,a.r,a.key,a.iv)); Bytes back(a.out); auto sp=s.split(n,a.c->unit,a.c->multof); size_t p=0; bool ip=s.draw(2); for(size_t l:sp){ if(ip) op(f.get(),!a.dir,cp(back)+p,mp(back)+p,l); else op(f.get(),!a.dir,cp(a.out)+p,mp(back)+p,l); p+=l; } if(back!=a.in) eq(back,a.in,a.dir?"encrypting the decryption does not give back the input":"decryption does not give back the plaintext"); };
  for(auto&a:v){ a.c=&a==&v[0]?&cf[0]:&cf[s.draw(cf.size())]; x.say(" [%zu]",(size_t)(&a-&v[0])); params(a); a.q.reset(screate(*a.c,a.r,a.key,a.iv)); if(kripto_stream_getdesc(a.q.get())!=a.c->d) fail("descriptor"); }
  unsigned n=2+s.draw(12);
  for(unsigned i=0;i<n;i++){ SS&a=v[s.draw(v.size())]; x.say("; [%zu]",(size_t)(&a-&v[0])); StreamCfg&c=*a.c;
    if(s.draw(5)){ size_t u=c.unit,left=u-a.in.size()%u,l; switch(s.draw(7)){ case 0: l=left; break; case 1: l=left-1; break; case 2: l=left+1; break; case 3: l=u*(1+s.draw(3)); break; case 4: l=left+u*s.draw(3); break; case 5: l=s.draw(4); break; default: l=s.draw(3*u+2); } l=l/c.multof*c.multof; int o=a.dir; if(c.has_prng()&&a.dir==ENC&&s.chance(1,5)) o=PRNG; else if(c.xorlike()&&s.chance(1,6)) o=!a.dir; Bytes b=o==PRNG?Bytes(l):s.bytes(l); Bytes res; int al=o==PRNG?0:s.draw(3); x.say(" %s %zu%s",o==ENC?"enc":o==DEC?"dec":"prng",l,al==1?" in place":"");
      if(al==1){ Guarded g(b,s.draw(16)); op(a.q.get(),o,g.p(),g.p(),l); g.check("in-place output"); res=g.get(); x.label("in place"); } else { Guarded gi(b,s.draw(16)),go(l,s.draw(16)); op(a.q.get(),o,gi.p(),go.p(),l); go.check("output"); gi.check("input"); eq(gi.get(),b,"input buffer"); res=go.get(); }
      a.in.insert(a.in.end(),b.begin(),b.end()); a.out.insert(a.out.end(),res.begin(),res.end()); if(l) ops++; if(o==PRNG) x.label("prng mixed in"); }
    else { check(a); x.say(" recreate"); Bytes k=a.key; unsigned rr=a.r; params(a); if(s.chance(1,4)){ a.key=k; a.r=rr; x.say(" (same key)"); } kripto_stream*nq=kripto_stream_recreate(a.q.get(),a.r,a.key.data(),a.key.size(),cp(a.iv),a.iv.size()); if(!nq){ a.q.release(); fail("kripto_stream_recreate failed"); } a.q.release(); a.q.reset(nq); if(kripto_stream_getdesc(nq)!=c.d) fail("descriptor after recreate"); if(kripto_stream_multof(nq)!=c.multof) fail("multof after recreate"); re++; } }
  for(auto&a:v){ x.say("; [%zu] check",(size_t)(&a-&v[0])); check(a); }
  if(re) x.label("with recreate");
  if(ops>1||re) x.nt(); }
// a single call above 2^32 bytes against pieces; op 0 encrypt 1 decrypt 2 keystream
static void big_call(Ctx&x,StreamCfg&c,unsigned r,int op){ const uint8_t*p=big_region(); uint8_t*o=big_scratch(); if(!p||!o) return; size_t len=(4ull<<30)+(c.multof>1?c.multof*3:4103); static const char*const nm[]={"encrypt","decrypt","prng"}; if(c.multof>1) len=len/c.multof*c.multof; x.say("%s rounds %u: one %s call of %zu bytes against pieces",c.name.c_str(),r,nm[op],len); Bytes key(16,7),iv(c.maxiv?std::min(c.maxiv,8u):0,9),ta(4096),tb(4096); size_t more=c.multof>64?c.multof:64/c.multof*c.multof; Bytes after(more),after2(more); StreamP a(screate(c,r,key,iv)),b(screate(c,r,key,iv)); auto run=[&](kripto_stream*q,const uint8_t*i,uint8_t*u,size_t n){ if(op==0) kripto_stream_encrypt(q,i,u,n); else if(op==1) kripto_stream_decrypt(q,i,u,n); else kripto_stream_prng(q,u,n); };
  run(a.get(),p,o,len); memcpy(ta.data(),o+len-4096,4096); run(a.get(),p,after.data(),more); const size_t step=BIG_UNIT/2/c.multof*c.multof; for(size_t d=0;d<len;){ size_t l=std::min<size_t>(len-d,step); run(b.get(),p+d,o+d,l); d+=l; } memcpy(tb.data(),o+len-4096,4096); run(b.get(),p,after2.data(),more); eq(ta,tb,"end of a single call above 4 GiB"); eq(after,after2,"call after a single call above 4 GiB"); a.reset(kripto_stream_recreate(a.release(),r,key.data(),key.size(),cp(iv),iv.size())); b.reset(screate(c,r,key,iv)); if(!a) fail("kripto_stream_recreate failed"); run(a.get(),p,after.data(),more); run(b.get(),p,after2.data(),more); eq(after,after2,"output of an object recreated after a call above 4 GiB"); x.label("single call above 4 GiB"); x.nt(); }
static const unsigned C09BIG=8+8+8+2;
static void c09fix(uint64_t i,Ctx&x){ StreamCfg c; 
  if(i<8){ stream_cfg(c,i); return big_call(x,c,i<2?2:i==2?0:1,i<2||x.thorough?0:2); } i-=8; // native ciphers
  if(i<8){ static const struct { int mode,op; } v[]={{0,1},{1,1},{2,1},{2,0},{2,2},{3,2},{4,2},{1,0}}; stream_custom(c,v[i].mode,fast_cipher()); return big_call(x,c,0,v[i].op); } i-=8; // modes over a fast custom cipher
  if(i<8){ if(i<3){ static const int m[]={0,3,4}; stream_custom(c,m[i],fast_cipher()); return big_call(x,c,0,0); } if(!x.thorough){ x.say("thorough tier"); return; } stream_cfg(c,i); return big_call(x,c,1,2); } i-=8;
  if(!x.thorough){ x.say("thorough tier"); return; } stream_cfg(c,i?n_streams+5*32+3:n_streams+5*32+4); big_call(x,c,1,0); }
static Reg r09({"C09","histories over 1..3 live stream objects (cipher or mode x block cipher of the first enumerated): encrypt / decrypt / prng pieces aimed at block boundaries, in place or not, recreate at any point; everything an object processed is compared with a fresh object in a single call and undone by a fresh object in other pieces; guard bytes and the input buffer are checked. Systematic part: single calls above 2^32 bytes (every native cipher; every mode in every direction over a custom cipher). Non-trivial: more than one non-empty call or a recreate.",600000,20000000,c09,C09BIG,c09fix,600,nullptr});
