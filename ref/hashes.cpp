// Hash functions, written from their specifications (one shot over the whole message).
#include "ref.h"
#include <stdexcept>
#include <cmath>
#include <algorithm>
namespace ref {
typedef unsigned __int128 u128;
// ---- constants derived arithmetically ----
static std::vector<unsigned> primes(unsigned n){ std::vector<unsigned> p; for(unsigned i=2;p.size()<n;i++){ bool ok=true; for(unsigned q:p){ if(q*q>i) break; if(i%q==0){ ok=false; break; } } if(ok) p.push_back(i); } return p; }
// 64 fractional bits of the k-th root of p (k = 2, 3): binary search on exact integers
typedef std::vector<u32> Big; // little endian limbs
static Big mulb(const Big&a,const Big&b){ Big r(a.size()+b.size(),0); for(size_t i=0;i<a.size();i++){ u64 c=0; for(size_t j=0;j<b.size();j++){ c+=(u64)a[i]*b[j]+r[i+j]; r[i+j]=(u32)c; c>>=32; } r[i+b.size()]+=(u32)c; } return r; }
static int cmpb(const Big&a,const Big&b){ size_t n=std::max(a.size(),b.size()); for(size_t i=n;i-->0;){ u32 x=i<a.size()?a[i]:0,y=i<b.size()?b[i]:0; if(x!=y) return x<y?-1:1; } return 0; }
static u64 rootfrac(unsigned p,unsigned k){ // floor(p^(1/k)*2^64) mod 2^64
  u128 x=0; Big target(2*k+1,0); target[2*k]=p; for(int bit=71;bit>=0;bit--){ u128 y=x|((u128)1<<bit); Big b={(u32)y,(u32)(y>>32),(u32)(y>>64)}; Big q=b; for(unsigned i=1;i<k;i++) q=mulb(q,b); if(cmpb(q,target)<=0) x=y; } return (u64)x; }
const std::vector<u64>& sha_k64(){ static std::vector<u64> v=[]{ std::vector<u64> r; for(unsigned p:primes(160)) r.push_back(rootfrac(p,3)); return r; }(); return v; }
static const std::vector<u64>& sqrt64(){ static std::vector<u64> v=[]{ std::vector<u64> r; for(unsigned p:primes(16)) r.push_back(rootfrac(p,2)); return r; }(); return v; }
const std::vector<u32>& pidigits(); // blocks.cpp: fractional digits of pi

template<class T> static Bytes be_digest(const T*h,unsigned n){ Bytes o(n*sizeof(T)); for(unsigned i=0;i<n;i++) stb(h[i],&o[i*sizeof(T)]); return o; }
template<class T> static Bytes le_digest(const T*h,unsigned n){ Bytes o(n*sizeof(T)); for(unsigned i=0;i<n;i++) stl(h[i],&o[i*sizeof(T)]); return o; }
// run f over the full blocks of the message followed by the padding tail
template<class F> static void md_blocks(const Bytes&m,const Bytes&tail,unsigned B,F f){ size_t full=m.size()/B; for(size_t i=0;i<full;i++) f(&m[i*B]); Bytes t(m.begin()+full*B,m.end()); t.insert(t.end(),tail.begin(),tail.end()); if(t.size()%B) throw std::runtime_error("padding"); for(size_t i=0;i<t.size();i+=B) f(&t[i]); }
static Bytes md_pad(size_t len,unsigned B,unsigned lenbytes,u8 first,bool big){ Bytes t; t.push_back(first); while((len+t.size()+lenbytes)%B) t.push_back(0); Bytes L(lenbytes,0); u128 bits=(u128)len*8; for(unsigned i=0;i<lenbytes&&i<16;i++) L[big?lenbytes-1-i:i]=(u8)(bits>>(8*i)); t.insert(t.end(),L.begin(),L.end()); return t; }

static Bytes md5(const Bytes&m){ static u32 K[64]; static bool init=false; if(!init){ for(int i=0;i<64;i++) K[i]=(u32)std::floor(std::fabs(std::sin((double)(i+1)))*4294967296.0); init=true; }
  static const int S[4][4]={{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}}; u32 h[4]={0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476};
  md_blocks(m,md_pad(m.size(),64,8,0x80,false),64,[&](const u8*p){ u32 a=h[0],b=h[1],c=h[2],d=h[3]; for(int i=0;i<64;i++){ u32 f; int g; switch(i/16){ case 0: f=(b&c)|(~b&d); g=i; break; case 1: f=(d&b)|(~d&c); g=(5*i+1)%16; break; case 2: f=b^c^d; g=(3*i+5)%16; break; default: f=c^(b|~d); g=7*i%16; } u32 t=d; d=c; c=b; b+=rl32(a+f+K[i]+ldl<u32>(p+4*g),S[i/16][i%4]); a=t; } h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; });
  return le_digest(h,4); }
static Bytes sha1(const Bytes&m){ u32 h[5]={0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0};
  md_blocks(m,md_pad(m.size(),64,8,0x80,true),64,[&](const u8*p){ u32 w[80]; for(int i=0;i<16;i++) w[i]=ldb<u32>(p+4*i); for(int i=16;i<80;i++) w[i]=rl32(w[i-3]^w[i-8]^w[i-14]^w[i-16],1); u32 a=h[0],b=h[1],c=h[2],d=h[3],e=h[4]; for(int i=0;i<80;i++){ u32 f,k; if(i<20){ f=(b&c)|(~b&d); k=0x5A827999; } else if(i<40){ f=b^c^d; k=0x6ED9EBA1; } else if(i<60){ f=(b&c)|(b&d)|(c&d); k=0x8F1BBCDC; } else { f=b^c^d; k=0xCA62C1D6; } u32 t=rl32(a,5)+f+e+k+w[i]; e=d; d=c; c=rl32(b,30); b=a; a=t; } h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; });
  return be_digest(h,5); }
template<class T> struct Sha2P; template<> struct Sha2P<u32>{ static constexpr int e0[3]={2,13,22},e1[3]={6,11,25},s0[3]={7,18,3},s1[3]={17,19,10},rounds=64; }; template<> struct Sha2P<u64>{ static constexpr int e0[3]={28,34,39},e1[3]={14,18,41},s0[3]={1,8,7},s1[3]={19,61,6},rounds=80; };
template<class T> static T rorw(T x,int n){ return (T)(x>>n|x<<(8*sizeof(T)-n)); }
template<class T> static Bytes sha2(unsigned r,const T*iv,const Bytes&m){ typedef Sha2P<T> P; if(!r) r=P::rounds; if(r<16) r=16; T h[8]; memcpy(h,iv,sizeof h); const unsigned B=16*sizeof(T); std::vector<T> w(r); const auto&K=sha_k64();
  md_blocks(m,md_pad(m.size(),B,2*sizeof(T),0x80,true),B,[&](const u8*p){ for(unsigned i=0;i<16;i++) w[i]=ldb<T>(p+sizeof(T)*i); for(unsigned i=16;i<r;i++){ T x=w[i-15],y=w[i-2]; w[i]=w[i-16]+w[i-7]+(rorw(x,P::s0[0])^rorw(x,P::s0[1])^(x>>P::s0[2]))+(rorw(y,P::s1[0])^rorw(y,P::s1[1])^(y>>P::s1[2])); }
    T a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7]; for(unsigned i=0;i<r;i++){ T k=(T)(K[i]>>(64-8*sizeof(T))); T t1=hh+(rorw(e,P::e1[0])^rorw(e,P::e1[1])^rorw(e,P::e1[2]))+((e&f)^(~e&g))+k+w[i]; T t2=(rorw(a,P::e0[0])^rorw(a,P::e0[1])^rorw(a,P::e0[2]))+((a&b)^(a&c)^(b&c)); hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
    h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=hh; });
  return be_digest(h,8); }
static void iv32(bool small,u32*h){ for(int i=0;i<8;i++) h[i]=small?(u32)sqrt64()[8+i]:(u32)(sqrt64()[i]>>32); } // SHA-256 / SHA-224
static void iv64(bool small,u64*h){ for(int i=0;i<8;i++) h[i]=small?sqrt64()[8+i]:sqrt64()[i]; } // SHA-512 / SHA-384

// ---- Tiger (S-boxes by the designers' generation procedure) ----
struct TigerT { u64 t[4][256]; };
static void tiger_compress(const u64 t[4][256],const u8*p,u64*st,unsigned passes){ u64 x[8]; for(int i=0;i<8;i++) x[i]=ldl<u64>(p+8*i); u64 a=st[0],b=st[1],c=st[2];
  auto round=[&](u64&a,u64&b,u64&c,u64 xi,u64 mul){ c^=xi; auto B=[&](int i){ return (unsigned)(c>>(8*i)&255); }; a-=t[0][B(0)]^t[1][B(2)]^t[2][B(4)]^t[3][B(6)]; b+=t[3][B(1)]^t[2][B(3)]^t[1][B(5)]^t[0][B(7)]; b*=mul; };
  for(unsigned ps=0;ps<passes;ps++){ if(ps){ x[0]-=x[7]^0xA5A5A5A5A5A5A5A5ULL; x[1]^=x[0]; x[2]+=x[1]; x[3]-=x[2]^(~x[1]<<19); x[4]^=x[3]; x[5]+=x[4]; x[6]-=x[5]^(~x[4]>>23); x[7]^=x[6]; x[0]+=x[7]; x[1]-=x[0]^(~x[7]<<19); x[2]^=x[1]; x[3]+=x[2]; x[4]-=x[3]^(~x[2]>>23); x[5]^=x[4]; x[6]+=x[5]; x[7]-=x[6]^0x0123456789ABCDEFULL; }
    u64 mul=ps==0?5:ps==1?7:9; round(a,b,c,x[0],mul); round(b,c,a,x[1],mul); round(c,a,b,x[2],mul); round(a,b,c,x[3],mul); round(b,c,a,x[4],mul); round(c,a,b,x[5],mul); round(a,b,c,x[6],mul); round(b,c,a,x[7],mul); u64 tmp=a; a=c; c=b; b=tmp; }
  st[0]=a^st[0]; st[1]=b-st[1]; st[2]=c+st[2]; }
static const TigerT& tiger_tables(){ static TigerT T=[]{ TigerT g; for(int s=0;s<4;s++) for(int i=0;i<256;i++) g.t[s][i]=0x0101010101010101ULL*i; u64 st[3]={0x0123456789ABCDEFULL,0xFEDCBA9876543210ULL,0xF096A5B4C3B2E187ULL}; const char*str="Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham"; int abc=2; for(int cnt=0;cnt<5;cnt++) for(int i=0;i<256;i++) for(int sb=0;sb<4;sb++){ abc++; if(abc==3){ abc=0; tiger_compress(g.t,(const u8*)str,st,3); } for(int col=0;col<8;col++){ unsigned j=(unsigned)(st[abc]>>(8*col)&255); u64 mask=255ULL<<(8*col); u64 v=(g.t[sb][i]^g.t[sb][j])&mask; g.t[sb][i]^=v; g.t[sb][j]^=v; } } return g; }(); return T; }
static Bytes tiger(unsigned r,const Bytes&m){ if(r<3) r=3; u64 h[3]={0x0123456789ABCDEFULL,0xFEDCBA9876543210ULL,0xF096A5B4C3B2E187ULL}; md_blocks(m,md_pad(m.size(),64,8,0x01,false),64,[&](const u8*p){ tiger_compress(tiger_tables().t,p,h,r); }); return le_digest(h,3); }

// ---- Whirlpool (S-box from its mini boxes, ISO version) ----
static u8 gm(unsigned a,unsigned b,unsigned poly){ unsigned r=0; while(b){ if(b&1) r^=a; a<<=1; if(a&256) a^=poly; b>>=1; } return (u8)r; }
static Bytes whirlpool(unsigned r,const Bytes&m){ static u8 S[256]; static u64 T[8][256]; static bool init=false; if(!init){ static const u8 E[16]={1,0xB,9,0xC,0xD,6,0xF,3,0xE,8,7,4,0xA,2,5,0},R[16]={7,0xC,0xB,0xD,0xE,4,9,0xF,6,3,8,0xA,2,5,1,0}; u8 I[16]; for(int i=0;i<16;i++) I[E[i]]=i; for(int x=0;x<256;x++){ u8 u=E[x>>4],l=I[x&15],q=R[u^l]; S[x]=E[u^q]<<4|I[l^q]; } static const u8 C[8]={1,1,4,1,8,5,2,9}; for(int i=0;i<8;i++) for(int x=0;x<256;x++){ u64 v=0; for(int j=0;j<8;j++) v=v<<8|gm(S[x],C[(j-i+8)%8],0x11D); T[i][x]=v; } init=true; }
  if(!r) r=10; u8 h[64]={0}; typedef u8 St[64];
  auto W=[&](const St in,St out){ for(int row=0;row<8;row++){ u64 v=0; for(int c=0;c<8;c++) v^=T[c][in[8*((row-c+8)%8)+c]]; stb(v,out+8*row); } };
  md_blocks(m,md_pad(m.size(),64,32,0x80,true),64,[&](const u8*p){ St k,s,t; memcpy(k,h,64); for(int i=0;i<64;i++) s[i]=p[i]^k[i]; for(unsigned i=0;i<r;i++){ W(k,t); memcpy(k,t,64); for(int c=0;c<8;c++) k[c]^=S[8*i+c]; W(s,t); for(int j=0;j<64;j++) s[j]=t[j]^k[j]; } for(int i=0;i<64;i++) h[i]^=s[i]^p[i]; });
  return Bytes(h,h+64); }

// ---- BLAKE / BLAKE2 ----
static const u8 SIG[10][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
template<class T> static void blake_rounds(T*v,const T*m,const T*c,unsigned r,const int*R){ // c null: BLAKE2
  static const int ix[8][4]={{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
  for(unsigned i=0;i<r;i++) for(int q=0;q<8;q++){ T&a=v[ix[q][0]],&b=v[ix[q][1]],&cc=v[ix[q][2]],&d=v[ix[q][3]]; int x=SIG[i%10][2*q],y=SIG[i%10][2*q+1]; a+=b+(T)(c?m[x]^c[y]:m[x]); d=rorw<T>(d^a,R[0]); cc+=d; b=rorw<T>(b^cc,R[1]); a+=b+(T)(c?m[y]^c[x]:m[y]); d=rorw<T>(d^a,R[2]); cc+=d; b=rorw<T>(b^cc,R[3]); } }
template<class T> static Bytes blake(unsigned r,const T*iv,bool full,const Bytes&salt,const Bytes&m,const int*R){ const unsigned B=16*sizeof(T); T C[16]; for(int i=0;i<16;i++){ if(sizeof(T)==4) C[i]=(T)pidigits()[i]; else C[i]=(T)((u64)pidigits()[2*i]<<32|pidigits()[2*i+1]); }
  T s[4]; Bytes sp=zpad(salt,4*sizeof(T)); for(int i=0;i<4;i++) s[i]=ldb<T>(&sp[i*sizeof(T)]); T h[8]; memcpy(h,iv,sizeof h);
  Bytes t=md_pad(m.size(),B,2*sizeof(T),0x80,true); if(full) t[t.size()-1-2*sizeof(T)]^=1; u64 done=0; u64 total=m.size();
  md_blocks(m,t,B,[&](const u8*p){ u64 have=total>done?std::min<u64>(B,total-done):0; done+=B; u128 ctr=have?(u128)(done-B+have)*8:0; T v[16],mm[16]; for(int i=0;i<16;i++) mm[i]=ldb<T>(p+i*sizeof(T)); for(int i=0;i<8;i++) v[i]=h[i]; for(int i=0;i<4;i++) v[8+i]=s[i]^C[i]; T t0=(T)ctr,t1=(T)(ctr>>(8*sizeof(T))); v[12]=t0^C[4]; v[13]=t0^C[5]; v[14]=t1^C[6]; v[15]=t1^C[7]; blake_rounds(v,mm,C,r,R); for(int i=0;i<8;i++) h[i]^=s[i%4]^v[i]^v[i+8]; });
  return be_digest(h,8); }
template<class T> static Bytes blake2(unsigned r,unsigned out_len,const Bytes&salt,const Bytes&m,const int*R){ const unsigned B=16*sizeof(T); T iv[8]; for(int i=0;i<8;i++) iv[i]=(T)(sqrt64()[i]>>(64-8*sizeof(T))); T h[8]; memcpy(h,iv,sizeof h); h[0]^=0x01010000^(T)out_len; Bytes sp=zpad(salt,2*sizeof(T)); h[4]^=ldl<T>(&sp[0]); h[5]^=ldl<T>(&sp[sizeof(T)]);
  size_t nb=m.empty()?1:(m.size()+B-1)/B; for(size_t b=0;b<nb;b++){ u8 buf[128]={0}; size_t have=std::min<size_t>(B,m.size()-b*B); if(have) memcpy(buf,&m[b*B],have); u128 ctr=(u128)b*B+have; T v[16],mm[16]; for(int i=0;i<16;i++) mm[i]=ldl<T>(buf+i*sizeof(T)); for(int i=0;i<8;i++){ v[i]=h[i]; v[8+i]=iv[i]; } v[12]^=(T)ctr; v[13]^=(T)(ctr>>(8*sizeof(T))); if(b+1==nb) v[14]=(T)~v[14]; blake_rounds<T>(v,mm,nullptr,r,R); for(int i=0;i<8;i++) h[i]^=v[i]^v[i+8]; }
  return le_digest(h,8); }

// ---- Keccak ----
template<class T> static void keccak_p(T a[5][5],unsigned r,const std::vector<T>&rc){ const unsigned w=8*sizeof(T); for(unsigned n=0;n<r;n++){ T c[5],b[5][5]; for(int x=0;x<5;x++) c[x]=a[x][0]^a[x][1]^a[x][2]^a[x][3]^a[x][4]; for(int x=0;x<5;x++){ T t=c[(x+1)%5]; T d=c[(x+4)%5]^(T)(t<<1|t>>(w-1)); for(int y=0;y<5;y++) a[x][y]^=d; }
    int x=1,y=0; b[0][0]=a[0][0]; for(int t=0;t<24;t++){ unsigned o=((t+1)*(t+2)/2)%w; T v=a[x][y]; v=o?(T)(v<<o|v>>(w-o)):v; int nx=y,ny=(2*x+3*y)%5; b[nx][ny]=v; x=nx; y=ny; }
    for(int yy=0;yy<5;yy++) for(int xx=0;xx<5;xx++) a[xx][yy]=b[xx][yy]^(~b[(xx+1)%5][yy]&b[(xx+2)%5][yy]); a[0][0]^=rc[n]; } }
template<class T> static const std::vector<T>& keccak_rc(){ static std::vector<T> v=[]{ std::vector<T> r; u8 lf=1; for(int i=0;i<255;i++){ T c=0; for(int j=0;j<7;j++){ if(lf&1){ unsigned pos=(1u<<j)-1; if(pos<8*sizeof(T)) c|=(T)1<<pos; } lf=lf&0x80?(u8)(lf<<1)^0x71:(u8)(lf<<1); } r.push_back(c); } return r; }(); return v; }
template<class T> static Bytes sponge(unsigned rounds,unsigned rate,u8 pad,const Bytes&m,size_t n){ T a[5][5]; memset(a,0,sizeof a); const auto&rc=keccak_rc<T>(); auto X=[&](size_t i,u8 v){ unsigned l=(unsigned)(i/sizeof(T)); a[l%5][l/5]^=(T)v<<(8*(i%sizeof(T))); }; auto G=[&](size_t i){ unsigned l=(unsigned)(i/sizeof(T)); return (u8)(a[l%5][l/5]>>(8*(i%sizeof(T)))); };
  size_t p=0; for(u8 c:m){ X(p++,c); if(p==rate){ keccak_p<T>(a,rounds,rc); p=0; } } X(p,pad); X(rate-1,0x80); keccak_p<T>(a,rounds,rc); Bytes o(n); p=0; for(size_t i=0;i<n;i++){ if(p==rate){ keccak_p<T>(a,rounds,rc); p=0; } o[i]=G(p++); } return o; }
Bytes sponge1600(unsigned rounds,unsigned rate,u8 pad,const Bytes&m,size_t n){ return sponge<u64>(rounds,rate,pad,m,n); }
Bytes sponge800(unsigned rounds,unsigned rate,u8 pad,const Bytes&m,size_t n){ return sponge<u32>(rounds,rate,pad,m,n); }

// ---- Skein 1.3 ----
struct Ubi { unsigned nw,rounds; const BlockSpec*tf; Bytes g; Ubi(unsigned nw,unsigned r):nw(nw),rounds(r),tf(&block("threefish"+std::to_string(64*nw))),g(8*nw,0){}
  void run(u8 type,const Bytes&m){ const size_t B=8*nw; size_t nb=m.empty()?1:(m.size()+B-1)/B; Bytes blk(B),c(B); for(size_t b=0;b<nb;b++){ size_t have=std::min(B,m.size()-b*B); std::fill(blk.begin(),blk.end(),0); if(have) memcpy(&blk[0],&m[b*B],have); Bytes tw(16,0); stl<u64>((u64)b*B+have,&tw[0]); tw[15]=type|(b==0?0x40:0)|(b+1==nb?0x80:0); auto t=tf->make(rounds,g); t->tweak(tw); t->enc(&blk[0],&c[0]); for(size_t i=0;i<B;i++) g[i]=c[i]^blk[i]; } }
  Bytes out(size_t n){ Bytes o; const size_t B=8*nw; auto t=tf->make(rounds,g); Bytes tw(16,0); tw[0]=8; tw[15]=0x40|0x80|63; t->tweak(tw); Bytes c(B); for(u64 i=0;o.size()<n;i++){ Bytes blk(B,0); stl<u64>(i,&blk[0]); t->enc(&blk[0],&c[0]); for(size_t j=0;j<B;j++) c[j]^=blk[j]; o.insert(o.end(),c.begin(),c.end()); } o.resize(n); return o; }
  void cfg(u64 bits){ Bytes c(32,0); memcpy(&c[0],"SHA3",4); c[4]=1; stl<u64>(bits,&c[8]); run(4,c); } };
static Bytes skein_any(unsigned nw,unsigned r,const Bytes&key,const Bytes&nonce,const Bytes*msg,u64 bits,size_t n){ Ubi u(nw,r); if(!key.empty()) u.run(0,key); u.cfg(bits); if(!nonce.empty()) u.run(20,nonce); if(msg) u.run(48,*msg); return u.out(n); }
Bytes skein(unsigned nw,unsigned r,const Bytes&key,const Bytes&nonce,const Bytes&m,u64 bits,size_t n){ return skein_any(nw,r,key,nonce,&m,bits,n); }
Bytes skein_ks(unsigned nw,unsigned r,const Bytes&key,const Bytes&iv,size_t n){ return skein_any(nw,r,key,iv,nullptr,~0ULL,n); }

// ---- registry ----
static Bytes cut(Bytes b,size_t n){ if(n>b.size()) throw std::runtime_error("digest too short"); b.resize(n); return b; }
static std::vector<unsigned> more(std::vector<unsigned> v,unsigned st=1){ for(unsigned b:{128u,256u,512u}) for(unsigned k:{b-st,b,b+st}) if(k>v.back()) v.push_back(k); return v; }
static std::vector<unsigned> range(unsigned a,unsigned b,unsigned s=1){ std::vector<unsigned> v; for(unsigned i=a;i<=b;i+=s) v.push_back(i); return v; }
static std::vector<HashSpec> build(){ std::vector<HashSpec> v; typedef const Bytes& K; const u64 UM=0xFFFFFFFFu; static const int R32[4]={16,12,8,7},R64[4]={32,25,16,11},R2b[4]={32,24,16,63};
  auto none=[]{ return std::vector<unsigned>(); };
  v.push_back({"md5",16,64,0,[](unsigned,K,K m,size_t,size_t n){ return cut(md5(m),n); },none});
  v.push_back({"sha1",20,64,0,[](unsigned,K,K m,size_t,size_t n){ return cut(sha1(m),n); },none});
  v.push_back({"sha2_256",32,64,0,[](unsigned r,K,K m,size_t ol,size_t n){ u32 iv[8]; iv32(ol<=28,iv); return cut(sha2<u32>(r,iv,m),n); },[]{ return range(16,128,8); }});
  v.push_back({"sha2_512",64,128,0,[](unsigned r,K,K m,size_t ol,size_t n){ u64 iv[8]; iv64(ol<=48,iv); return cut(sha2<u64>(r,iv,m),n); },[]{ return range(16,160,8); }});
  v.push_back({"tiger",24,64,0,[](unsigned r,K,K m,size_t,size_t n){ return cut(tiger(r,m),n); },[]{ return range(3,20); }});
  v.push_back({"whirlpool",64,64,0,[](unsigned r,K,K m,size_t,size_t n){ return cut(whirlpool(r,m),n); },[]{ return range(1,10); }});
  v.push_back({"blake256",32,64,16,[](unsigned r,K s,K m,size_t ol,size_t n){ u32 iv[8]; iv32(ol<=28,iv); return cut(blake<u32>(r?r:14,iv,ol>28,s,m,R32),n); },[]{ return more(range(1,30)); }});
  v.push_back({"blake512",64,128,32,[](unsigned r,K s,K m,size_t ol,size_t n){ u64 iv[8]; iv64(ol<=48,iv); return cut(blake<u64>(r?r:16,iv,ol>48,s,m,R64),n); },[]{ return more(range(1,30)); }});
  v.push_back({"blake2s",32,64,8,[](unsigned r,K s,K m,size_t ol,size_t n){ return cut(blake2<u32>(r?r:10,(unsigned)ol,s,m,R32),n); },[]{ return more(range(1,30)); }});
  v.push_back({"blake2b",64,128,16,[](unsigned r,K s,K m,size_t ol,size_t n){ return cut(blake2<u64>(r?r:12,(unsigned)ol,s,m,R2b),n); },[]{ return more(range(1,30)); }});
  v.push_back({"keccak1600",0,200,0,[](unsigned r,K,K m,size_t ol,size_t n){ return sponge1600(r?r:24,200-2*(unsigned)std::min<size_t>(ol,99),1,m,n); },[]{ return range(1,48); }});
  v.push_back({"keccak800",0,100,0,[](unsigned r,K,K m,size_t ol,size_t n){ return sponge800(r?r:22,100-2*(unsigned)std::min<size_t>(ol,49),1,m,n); },[]{ return range(1,40); }});
  v.push_back({"sha3",64,200,0,[](unsigned r,K,K m,size_t ol,size_t n){ return sponge1600(r?r:24,200-2*(unsigned)std::min<size_t>(ol,99),6,m,n); },[]{ return range(1,48); }});
  for(unsigned nw:{4u,8u,16u}) v.push_back({"skein"+std::to_string(nw*64),0,8*nw,UM,[nw](unsigned r,K s,K m,size_t ol,size_t n){ return skein(nw,r,Bytes(),s,m,(u64)(u32)ol*8,n); },[]{ return more(range(8,128,8),8); }});
  return v; }
const std::vector<HashSpec>& hashes(){ static std::vector<HashSpec> v=build(); return v; }
const HashSpec& hash(const std::string&n){ for(auto&h:hashes()) if(h.name==n) return h; throw std::runtime_error("no hash "+n); }
}
