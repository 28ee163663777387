// Stream ciphers, block modes, MACs, authenticated modes and KDFs from their specifications.
#include "ref.h"
#include <stdexcept>
#include <algorithm>
namespace ref {
// ---- ChaCha / Salsa20 ----
static void salsa_perm(u32*x,unsigned r){ auto Q=[&](int a,int b,int c,int d){ x[b]^=rl32(x[a]+x[d],7); x[c]^=rl32(x[b]+x[a],9); x[d]^=rl32(x[c]+x[b],13); x[a]^=rl32(x[d]+x[c],18); };
  for(unsigned i=0;i<r;i++){ if(i%2==0){ Q(0,4,8,12); Q(5,9,13,1); Q(10,14,2,6); Q(15,3,7,11); } else { Q(0,1,2,3); Q(5,6,7,4); Q(10,11,8,9); Q(15,12,13,14); } } }
static void chacha_perm(u32*x,unsigned r){ auto Q=[&](int a,int b,int c,int d){ x[a]+=x[b]; x[d]=rl32(x[d]^x[a],16); x[c]+=x[d]; x[b]=rl32(x[b]^x[c],12); x[a]+=x[b]; x[d]=rl32(x[d]^x[a],8); x[c]+=x[d]; x[b]=rl32(x[b]^x[c],7); };
  for(unsigned i=0;i<r;i++){ if(i%2==0) for(int j=0;j<4;j++) Q(j,4+j,8+j,12+j); else for(int j=0;j<4;j++) Q(j,4+(j+1)%4,8+(j+2)%4,12+(j+3)%4); } }
// "expand NN-byte k" with the key repeated to 32 bytes
static void setup(const Bytes&key,u32 c[4],u32 k[8]){ std::string s="expand "; unsigned n=key.size(); s+=(char)('0'+n/10); s+=(char)('0'+n%10); s+="-byte k"; for(int i=0;i<4;i++) c[i]=ldl<u32>((const u8*)s.data()+4*i); Bytes e(32); for(int i=0;i<32;i++) e[i]=key[i%n]; for(int i=0;i<8;i++) k[i]=ldl<u32>(&e[4*i]); }
Bytes chacha_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n,u64 ctr0){ unsigned r=rounds?rounds:20; u32 c[4],k[8]; setup(key,c,k); u64 ctr=ctr0; u32 nonce[2]={0,0}; bool ietf=false; u32 c12=0,c13=0; 
  if(iv.size()>12){ Bytes v=zpad(iv,24); u32 x[16]; memcpy(x,c,16); memcpy(x+4,k,32); for(int i=0;i<4;i++) x[12+i]=ldl<u32>(&v[4*i]); chacha_perm(x,r); memcpy(k,x,16); memcpy(k+4,x+12,16); nonce[0]=ldl<u32>(&v[16]); nonce[1]=ldl<u32>(&v[20]); }
  else if(iv.size()>8){ Bytes v=zpad(iv,12); ietf=true; c13=ldl<u32>(&v[0]); nonce[0]=ldl<u32>(&v[4]); nonce[1]=ldl<u32>(&v[8]); }
  else { Bytes v=zpad(iv,8); nonce[0]=ldl<u32>(&v[0]); nonce[1]=ldl<u32>(&v[4]); }
  (void)c12; Bytes o; o.reserve(n+64); while(o.size()<n){ u32 x[16],y[16]; memcpy(x,c,16); memcpy(x+4,k,32); x[12]=(u32)ctr; x[13]=ietf?c13:(u32)(ctr>>32); x[14]=nonce[0]; x[15]=nonce[1]; memcpy(y,x,64); chacha_perm(x,r); for(int i=0;i<16;i++){ u8 b[4]; stl(x[i]+y[i],b); o.insert(o.end(),b,b+4); } ctr++; } o.resize(n); return o; }
Bytes salsa20_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n,u64 ctr0){ unsigned r=rounds?rounds:20; u32 c[4],k[8]; setup(key,c,k); u32 nonce[2];
  auto lay=[&](u32*x,u32 a,u32 b,u32 cc,u32 d){ x[0]=c[0]; x[5]=c[1]; x[10]=c[2]; x[15]=c[3]; for(int i=0;i<4;i++){ x[1+i]=k[i]; x[11+i]=k[4+i]; } x[6]=a; x[7]=b; x[8]=cc; x[9]=d; };
  if(iv.size()>8){ Bytes v=zpad(iv,24); u32 x[16]; lay(x,ldl<u32>(&v[0]),ldl<u32>(&v[4]),ldl<u32>(&v[8]),ldl<u32>(&v[12])); salsa_perm(x,r); u32 nk[8]={x[0],x[5],x[10],x[15],x[6],x[7],x[8],x[9]}; memcpy(k,nk,32); nonce[0]=ldl<u32>(&v[16]); nonce[1]=ldl<u32>(&v[20]); }
  else { Bytes v=zpad(iv,8); nonce[0]=ldl<u32>(&v[0]); nonce[1]=ldl<u32>(&v[4]); }
  Bytes o; o.reserve(n+64); for(u64 ctr=ctr0;o.size()<n;ctr++){ u32 x[16],y[16]; lay(x,nonce[0],nonce[1],(u32)ctr,(u32)(ctr>>32)); memcpy(y,x,64); salsa_perm(x,r); for(int i=0;i<16;i++){ u8 b[4]; stl(x[i]+y[i],b); o.insert(o.end(),b,b+4); } } o.resize(n); return o; }
// RC4; `drop` initial keystream bytes are discarded
Bytes rc4_ks(unsigned drop,const Bytes&key,size_t n){ u8 s[256]; for(int i=0;i<256;i++) s[i]=i; unsigned j=0; for(unsigned i=0;i<256;i++){ j=(j+s[i]+key[i%key.size()])&255; std::swap(s[i],s[j]); } Bytes o(n); unsigned a=0,b=0; for(size_t t=0;t<n+drop;t++){ a=(a+1)&255; b=(b+s[a])&255; std::swap(s[a],s[b]); if(t>=drop) o[t-drop]=s[(s[a]+s[b])&255]; } return o; }
static Bytes cat(const Bytes&a,const Bytes&b){ Bytes r=a; r.insert(r.end(),b.begin(),b.end()); return r; }
Bytes keccak1600_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n){ return sponge1600(rounds?rounds:24,200-2*key.size(),1,cat(key,iv),n); }
Bytes keccak800_ks(unsigned rounds,const Bytes&key,const Bytes&iv,size_t n){ return sponge800(rounds?rounds:22,100-2*key.size(),1,cat(key,iv),n); }

// ---- block modes (whole message) ----
Bytes mode_crypt(const std::string&m,Block&b,unsigned bs,const Bytes&iv_,const Bytes&in,bool dec){ Bytes iv=zpad(iv_,bs),o(in.size()),t(bs);
  if(m=="ecb"||m=="cbc"){ if(in.size()%bs) throw std::runtime_error("partial block"); for(size_t i=0;i<in.size();i+=bs){ if(m=="ecb"){ if(dec) b.dec(&in[i],&t[0]); else b.enc(&in[i],&t[0]); } else if(dec){ b.dec(&in[i],&t[0]); for(unsigned j=0;j<bs;j++) t[j]^=iv[j]; iv.assign(in.begin()+i,in.begin()+i+bs); } else { for(unsigned j=0;j<bs;j++) iv[j]^=in[i+j]; b.enc(&iv[0],&t[0]); iv=t; } memcpy(&o[i],&t[0],bs); } return o; }
  for(size_t i=0;i<in.size();i+=bs){ size_t n=std::min<size_t>(bs,in.size()-i); b.enc(&iv[0],&t[0]); for(size_t j=0;j<n;j++) o[i+j]=in[i+j]^t[j];
    if(m=="ctr"){ for(unsigned k=bs;k-->0;) if(++iv[k]) break; } else if(m=="ofb") iv=t; else if(m=="cfb"){ for(size_t j=0;j<n;j++) iv[j]=dec?in[i+j]:o[i+j]; } else throw std::runtime_error("mode"); }
  return o; }

// ---- MACs ----
#include "polys.inc"
std::vector<unsigned> gf_poly(unsigned bits){ const auto&p=POLYS[bits/8-1]; return {p[0],p[1],p[2],0}; }
Bytes hmac(const HashSpec&h,unsigned rounds,const Bytes&key,const Bytes&msg,size_t tl,size_t n){ const size_t B=h.blocksize; Bytes k=key; if(k.size()>B) k=h.run(rounds,Bytes(),key,std::min(tl,B),std::min(tl,B)); k.resize(B,0); Bytes ik=k,ok=k; for(auto&c:ik) c^=0x36; for(auto&c:ok) c^=0x5C; return h.run(rounds,Bytes(),cat(ok,h.run(rounds,Bytes(),cat(ik,msg),tl,tl)),tl,n); }
// Polynomials x^(8n) + ...: lexicographically first irreducible among those of minimal weight
static Bytes dbl(Bytes x){ unsigned n=x.size(); bool c=x[0]&0x80; for(unsigned i=0;i<n;i++) x[i]=(u8)(x[i]<<1)|(i+1<n?x[i+1]>>7:0); if(c){ auto p=gf_poly(n*8); for(unsigned e:p) x[n-1-e/8]^=1u<<(e%8); } return x; }
Bytes omac(Block&b,unsigned bs,const Bytes&msg,size_t n){ Bytes L(bs,0),c(bs,0); b.enc(&L[0],&L[0]); Bytes k1=dbl(L),k2=dbl(k1); size_t nb=msg.empty()?1:(msg.size()+bs-1)/bs; for(size_t i=0;i<nb;i++){ size_t have=std::min<size_t>(bs,msg.size()-i*bs); for(size_t j=0;j<have;j++) c[j]^=msg[i*bs+j]; if(i+1==nb){ const Bytes&k=have==bs?k1:k2; if(have<bs) c[have]^=0x80; for(unsigned j=0;j<bs;j++) c[j]^=k[j]; } Bytes t(bs); b.enc(&c[0],&t[0]); c=t; } c.resize(n); return c; }
Bytes xcbc(const BlockSpec&s,unsigned rounds,const Bytes&key,const Bytes&msg,size_t n){ const unsigned bs=s.bs; auto b=s.make(rounds,key); Bytes k[3]; for(int i=0;i<3;i++){ Bytes x(bs,i+1); k[i].resize(bs); b->enc(&x[0],&k[i][0]); } auto e=s.make(rounds,k[0]); Bytes c(bs,0); size_t nb=msg.empty()?1:(msg.size()+bs-1)/bs; for(size_t i=0;i<nb;i++){ size_t have=std::min<size_t>(bs,msg.size()-i*bs); for(size_t j=0;j<have;j++) c[j]^=msg[i*bs+j]; if(i+1==nb){ const Bytes&q=have==bs?k[1]:k[2]; if(have<bs) c[have]^=0x80; for(unsigned j=0;j<bs;j++) c[j]^=q[j]; } Bytes t(bs); e->enc(&c[0],&t[0]); c=t; } c.resize(n); return c; }

// ---- KDFs ----
Bytes pbkdf2(const Prf&f,const Bytes&pass,const Bytes&salt,unsigned iter,size_t n){ Bytes o; for(u32 i=1;o.size()<n;i++){ Bytes s=salt; for(int j=3;j>=0;j--) s.push_back((u8)(i>>(8*j))); Bytes u=f(pass,s),t=u; for(unsigned k=1;k<iter;k++){ u=f(pass,u); for(size_t j=0;j<t.size();j++) t[j]^=u[j]; } o.insert(o.end(),t.begin(),t.end()); } o.resize(n); return o; }
static void salsa8(u8*b){ u32 x[16],y[16]; for(int i=0;i<16;i++) y[i]=x[i]=ldl<u32>(b+4*i); salsa_perm(x,8); for(int i=0;i<16;i++) stl(x[i]+y[i],b+4*i); }
static Bytes blockmix(const Bytes&b,u32 r){ Bytes o(b.size()); u8 x[64]; memcpy(x,&b[(2*r-1)*64],64); for(u32 i=0;i<2*r;i++){ for(int j=0;j<64;j++) x[j]^=b[i*64+j]; salsa8(x); memcpy(&o[(i%2?r+i/2:i/2)*64],x,64); } return o; }
Bytes scrypt(const Prf&f,const Bytes&pass,const Bytes&salt,u64 N,u32 r,u32 p,size_t n){ Bytes B=pbkdf2(f,pass,salt,1,(size_t)128*r*p); for(u32 i=0;i<p;i++){ Bytes x(B.begin()+(size_t)128*r*i,B.begin()+(size_t)128*r*(i+1)); std::vector<Bytes> V; for(u64 j=0;j<N;j++){ V.push_back(x); x=blockmix(x,r); } for(u64 j=0;j<N;j++){ u64 k=ldl<u64>(&x[(2*r-1)*64])%N; for(size_t q=0;q<x.size();q++) x[q]^=V[k][q]; x=blockmix(x,r); } memcpy(&B[(size_t)128*r*i],&x[0],x.size()); } return pbkdf2(f,pass,B,1,n); }

// ---- EAX / EAX2 ----
static Bytes tbyte(unsigned t,size_t n){ Bytes r(n,0); r[n-1]=t; return r; }
AeOut eax(const BlockSpec&s,unsigned rounds,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tag){ auto b=s.make(rounds,key); Bytes N=omac(*b,s.bs,cat(tbyte(0,s.bs),nonce),s.bs),H=omac(*b,s.bs,cat(tbyte(1,s.bs),hdr),s.bs); AeOut o; o.out=mode_crypt("ctr",*b,s.bs,N,in,dec); Bytes C=omac(*b,s.bs,cat(tbyte(2,s.bs),dec?in:o.out),s.bs); for(size_t i=0;i<tag;i++) o.tag.push_back(N[i]^H[i]^C[i]); return o; }
AeOut eax2(const std::function<Bytes(const Bytes&key,const Bytes&iv,const Bytes&in,bool dec)>&stream,u64 smaxkey,u64 smaxiv,const std::function<Bytes(const Bytes&key,const Bytes&msg,size_t tl)>&mac,u64 mmaxkey,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tl){
  // the key is halved (the stream cipher gets the odd byte), parts exceeding a primitive's limit go to the other
  u64 n=key.size(),sk=std::min<u64>((n+1)/2,smaxkey),mk=n-sk; if(mk>mmaxkey){ mk=mmaxkey; sk=n-mk; } Bytes K1(key.begin(),key.begin()+mk),K2(key.begin()+mk,key.end());
  Bytes N=mac(K1,cat(tbyte(0,tl),nonce),tl),H=mac(K1,cat(tbyte(1,tl),hdr),tl); Bytes iv=N; if(iv.size()>smaxiv) iv.resize(smaxiv); AeOut o; o.out=stream(K2,iv,in,dec); Bytes C=mac(K1,cat(tbyte(2,tl),dec?in:o.out),tl); for(size_t i=0;i<tl;i++) o.tag.push_back(N[i]^H[i]^C[i]); return o; }
}
