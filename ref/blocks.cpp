#include "ref.h"
#include <stdexcept>
#include <algorithm>
namespace ref {
#include "tables.inc"
typedef std::unique_ptr<Block> BP;

// ---------- GF(2^8) ----------
static u8 gmul(u8 a,u8 b,unsigned poly){ unsigned r=0,x=a; for(int i=0;i<8;i++){ if(b>>i&1) r^=x; x<<=1; if(x&0x100) x^=poly; } return (u8)r; }

// ---------- Rijndael (AES book, byte oriented, Nb columns) ----------
struct AesBox { u8 S[256],I[256]; AesBox(){ for(int x=0;x<256;x++){ u8 inv=0; for(int y=1;y<256&&x;y++) if(gmul(x,y,0x11B)==1){inv=y;break;} u8 r=0; for(int i=0;i<8;i++){ int b=(inv>>i^inv>>((i+4)&7)^inv>>((i+5)&7)^inv>>((i+6)&7)^inv>>((i+7)&7)^0x63>>i)&1; r|=b<<i; } S[x]=r; I[r]=x; } } };
static const AesBox& aesbox(){ static AesBox b; return b; }
struct Rijndael: Block {
  unsigned nb,r; Bytes w; // round keys bytes, 4*nb*(r+1)
  static u8 (*tbl())[256]{ static u8 t[16][256]; static bool done=false; if(!done){ for(int c=0;c<16;c++) for(int x=0;x<256;x++) t[c][x]=gmul(x,c,0x11B); done=true; } return t; }
  Rijndael(unsigned nb,unsigned r,const Bytes&key):nb(nb),r(r){
    tbl(); unsigned nk=(key.size()+3)/4; Bytes k=zpad(key,nk*4); size_t total=(size_t)nb*(r+1);
    w.resize(4*std::max<size_t>(total,nk)); memcpy(&w[0],&k[0],nk*4); u8 rc=1; const u8*S=aesbox().S;
    for(size_t i=nk;i<total;i++){ u8 t[4]; memcpy(t,&w[4*(i-1)],4);
      if(i%nk==0){ u8 a=t[0]; t[0]=S[t[1]]^rc; t[1]=S[t[2]]; t[2]=S[t[3]]; t[3]=S[a]; rc=gmul(rc,2,0x11B); }
      else if(nk>6&&i%nk==4) for(int j=0;j<4;j++) t[j]=S[t[j]];
      for(int j=0;j<4;j++) w[4*i+j]=w[4*(i-nk)+j]^t[j]; }
  }
  unsigned off(unsigned row)const{ return nb==8? (row>1?row+1:row):row; }
  void ark(u8*s,unsigned i){ for(unsigned j=0;j<4*nb;j++) s[j]^=w[4*nb*i+j]; }
  void mix(u8*s,const u8 c[4]){ auto t=tbl(); for(unsigned q=0;q<nb;q++){ u8 a[4]; memcpy(a,s+4*q,4); for(int i=0;i<4;i++) s[4*q+i]=t[c[0]][a[i]]^t[c[1]][a[(i+1)&3]]^t[c[2]][a[(i+2)&3]]^t[c[3]][a[(i+3)&3]]; } }
  void enc(const u8*in,u8*out){ u8 s[32],t[32]; static const u8 C[4]={2,3,1,1}; memcpy(s,in,4*nb); ark(s,0);
    for(unsigned i=1;i<=r;i++){ for(unsigned j=0;j<4*nb;j++) s[j]=aesbox().S[s[j]];
      for(unsigned q=0;q<nb;q++) for(int j=0;j<4;j++) t[4*q+j]=s[4*((q+off(j))%nb)+j];
      memcpy(s,t,4*nb); if(i<r) mix(s,C); ark(s,i); } memcpy(out,s,4*nb); }
  void dec(const u8*in,u8*out){ u8 s[32],t[32]; static const u8 C[4]={14,11,13,9}; memcpy(s,in,4*nb);
    for(unsigned i=r;i>=1;i--){ ark(s,i); if(i<r) mix(s,C);
      for(unsigned q=0;q<nb;q++) for(int j=0;j<4;j++) t[4*((q+off(j))%nb)+j]=s[4*q+j];
      for(unsigned j=0;j<4*nb;j++) s[j]=aesbox().I[t[j]]; } ark(s,0); memcpy(out,s,4*nb); }
};

// ---------- Anubis / Khazad (tweaked S-box) ----------
struct MiniBox { u8 S[256]; MiniBox(){ static const u8 P[16]={3,0xF,0xE,0,5,4,0xB,0xC,0xD,0xA,9,6,7,8,2,1},Q[16]={9,0xE,5,6,0xA,2,3,0xC,0xF,0,4,0xD,7,0xB,1,8};
  for(int x=0;x<256;x++){ int u=P[x>>4],l=Q[x&15],a; a=(u&12)|(l>>2); l=(u&3)<<2|(l&3); u=Q[a]; l=P[l]; a=(u&12)|(l>>2); l=(u&3)<<2|(l&3); S[x]=P[a]<<4|Q[l]; } } };
static const u8* miniS(){ static MiniBox b; return b.S; }
struct Had { u8 t[16][256]; Had(){ for(int c=0;c<16;c++) for(int x=0;x<256;x++) t[c][x]=gmul(x,c,0x11D); } };
static const Had& had(){ static Had h; return h; }
struct Anubis: Block {
  unsigned r; std::vector<Bytes> k;
  static void theta(u8*a,unsigned n){ static const u8 H[4][4]={{1,2,4,6},{2,1,6,4},{4,6,1,2},{6,4,2,1}}; auto&t=had().t;
    for(unsigned i=0;i<n;i++){ u8 o[4]; for(int j=0;j<4;j++){ o[j]=0; for(int q=0;q<4;q++) o[j]^=t[H[q][j]][a[4*i+q]]; } memcpy(a+4*i,o,4); } }
  Anubis(unsigned r,const Bytes&key):r(r){ unsigned n=(key.size()+3)/4; Bytes K=zpad(key,4*n); static const u8 c[4]={1,2,6,8}; const u8*S=miniS();
    for(unsigned i=0;i<=r;i++){ Bytes rk(16);
      for(int row=0;row<4;row++) for(int col=0;col<4;col++){ u8 v=0; for(int j=n-1;j>=0;j--) v=gmul(v,c[row],0x11D)^S[K[4*j+col]]; rk[4*col+row]=v; }
      k.push_back(rk);
      Bytes T(4*n); for(unsigned a=0;a<n;a++) for(int j=0;j<4;j++) T[4*a+j]=S[K[4*((a+n*4-j)%n)+j]];
      theta(&T[0],n); for(int j=0;j<4;j++) T[j]^=S[(4*i+j)&255]; K=T; } }
  static void tau(u8*a){ for(int i=0;i<4;i++) for(int j=i+1;j<4;j++) std::swap(a[4*i+j],a[4*j+i]); }
  void x(u8*s,unsigned i){ for(int j=0;j<16;j++) s[j]^=k[i][j]; }
  void enc(const u8*in,u8*out){ u8 s[16]; memcpy(s,in,16); x(s,0); for(unsigned i=1;i<=r;i++){ for(auto&b:s) b=miniS()[b]; tau(s); if(i<r) theta(s,4); x(s,i);} memcpy(out,s,16); }
  void dec(const u8*in,u8*out){ u8 s[16]; memcpy(s,in,16); for(unsigned i=r;i>=1;i--){ x(s,i); if(i<r) theta(s,4); tau(s); for(auto&b:s) b=miniS()[b]; } x(s,0); memcpy(out,s,16); }
};
struct Khazad: Block {
  unsigned r; std::vector<Bytes> k;
  static void theta(u8*a){ static const u8 h[8]={1,3,4,5,6,8,0xB,7}; auto&t=had().t; u8 o[8]; for(int j=0;j<8;j++){ o[j]=0; for(int i=0;i<8;i++) o[j]^=t[h[i^j]][a[i]]; } memcpy(a,o,8); }
  Khazad(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,16); Bytes a(K.begin(),K.begin()+8),b(K.begin()+8,K.end());
    for(unsigned i=0;i<=r;i++){ Bytes t=b; for(auto&v:t) v=miniS()[v]; theta(&t[0]); for(int j=0;j<8;j++) t[j]^=miniS()[(8*i+j)&255]^a[j]; a=b; b=t; k.push_back(t); } }
  void x(u8*s,unsigned i){ for(int j=0;j<8;j++) s[j]^=k[i][j]; }
  void enc(const u8*in,u8*out){ u8 s[8]; memcpy(s,in,8); x(s,0); for(unsigned i=1;i<=r;i++){ for(auto&b:s) b=miniS()[b]; if(i<r) theta(s); x(s,i);} memcpy(out,s,8); }
  void dec(const u8*in,u8*out){ u8 s[8]; memcpy(s,in,8); for(unsigned i=r;i>=1;i--){ x(s,i); if(i<r) theta(s); for(auto&b:s) b=miniS()[b]; } x(s,0); memcpy(out,s,8); }
};

// ---------- ARIA (RFC 5794) ----------
struct AriaBox { u8 I2[256]; AriaBox(){ for(int i=0;i<256;i++) I2[ARIA_S2[i]]=i; } };
struct Aria: Block {
  unsigned r; std::vector<Bytes> ek;
  static void SL(u8*x,int type){ static AriaBox ab; const u8*S1=aesbox().S,*I1=aesbox().I; const u8*t1[4]={S1,ARIA_S2,I1,ab.I2}; for(int i=0;i<16;i++) x[i]=t1[((i&3)+(type==1?0:2))&3][x[i]]; }
  static void A(u8*x){ static const u8 M[16][7]={{3,4,6,8,9,13,14},{2,5,7,8,9,12,15},{1,4,6,10,11,12,15},{0,5,7,10,11,13,14},{0,2,5,8,11,14,15},{1,3,4,9,10,14,15},{0,2,7,9,10,12,13},{1,3,6,8,11,12,13},{0,1,4,7,10,13,15},{0,1,5,6,11,12,14},{2,3,5,6,8,13,15},{2,3,4,7,9,12,14},{1,2,6,7,9,11,12},{0,3,6,7,8,10,13},{0,3,4,5,9,11,14},{1,2,4,5,8,10,15}};
    u8 y[16]; for(int i=0;i<16;i++){ y[i]=0; for(int j=0;j<7;j++) y[i]^=x[M[i][j]]; } memcpy(x,y,16); }
  static Bytes F(int type,Bytes d,const u8*rk){ for(int i=0;i<16;i++) d[i]^=rk[i]; SL(&d[0],type); A(&d[0]); return d; }
  static Bytes X(const Bytes&a,const Bytes&b){ Bytes r(16); for(int i=0;i<16;i++) r[i]=a[i]^b[i]; return r; }
  static Bytes ror(const Bytes&a,unsigned n){ Bytes r(16); for(unsigned i=0;i<128;i++){ unsigned bit=a[i/8]>>(7-i%8)&1; unsigned j=(i+n)%128; if(bit) r[j/8]|=1<<(7-j%8);} return r; }
  Aria(unsigned r,const Bytes&key):r(r){
    static const u8 CK[3][16]={{0x51,0x7c,0xc1,0xb7,0x27,0x22,0x0a,0x94,0xfe,0x13,0xab,0xe8,0xfa,0x9a,0x6e,0xe0},{0x6d,0xb1,0x4a,0xcc,0x9e,0x21,0xc8,0x20,0xff,0x28,0xb1,0xd5,0xef,0x5d,0xe2,0xb0},{0xdb,0x92,0x37,0x1d,0x21,0x26,0xe9,0x70,0x03,0x24,0x97,0x75,0x04,0xe8,0xc9,0x0e}};
    unsigned n=(key.size()+3)/4; unsigned c=n==8?2:n==6?1:0; Bytes K=zpad(key,32); Bytes KL(K.begin(),K.begin()+16),KR(K.begin()+16,K.end());
    Bytes W0=KL,W1=X(F(1,W0,CK[c]),KR),W2=X(F(2,W1,CK[(c+1)%3]),W0),W3=X(F(1,W2,CK[(c+2)%3]),W1); Bytes W[4]={W0,W1,W2,W3};
    static const int rot[5]={19,31,67,97,109}; // >>>19 >>>31 <<<61 <<<31 <<<19
    for(unsigned i=0;i<=r;i++) ek.push_back(X(W[i&3],ror(W[(i+1)&3],rot[(i/4)%5]))); }
  void enc(const u8*in,u8*out){ Bytes s(in,in+16); for(unsigned i=1;i<r;i++) s=F(i&1?1:2,s,&ek[i-1][0]); s=X(s,ek[r-1]); SL(&s[0],2); s=X(s,ek[r]); memcpy(out,&s[0],16); }
  void dec(const u8*in,u8*out){ Bytes s(in,in+16); s=X(s,ek[r]); SL(&s[0],1); s=X(s,ek[r-1]); for(unsigned i=r-1;i>=1;i--){ A(&s[0]); SL(&s[0],i&1?2:1); s=X(s,ek[i-1]); } memcpy(out,&s[0],16); }
};

// ---------- Blowfish ----------
const std::vector<u32>& pidigits(){ // fractional part of pi, 32 bit words, by Machin
  static std::vector<u32> out; if(!out.empty()) return out;
  const int N=1064; typedef std::vector<u32> Big; // Big[0]=integer part
  auto divs=[&](Big&a,u32 d){ u64 r=0; for(auto&w:a){ u64 c=(r<<32)|w; w=(u32)(c/d); r=c%d; } };
  auto add=[&](Big&a,const Big&b){ u64 c=0; for(int i=N-1;i>=0;i--){ c+=(u64)a[i]+b[i]; a[i]=(u32)c; c>>=32; } };
  auto sub=[&](Big&a,const Big&b){ long long c=0; for(int i=N-1;i>=0;i--){ c+=(long long)a[i]-b[i]; a[i]=(u32)c; c>>=32; } };
  auto zero=[&](const Big&a){ for(auto w:a) if(w) return false; return true; };
  auto atan=[&](u32 mul,u32 x){ Big p(N,0),s(N,0); p[0]=mul; divs(p,x); s=p; for(u32 k=3;;k+=2){ divs(p,x); divs(p,x); if(zero(p)) break; Big t=p; divs(t,k); if(k&2) sub(s,t); else add(s,t); } return s; };
  Big a=atan(16,5),b=atan(4,239); sub(a,b); out.assign(a.begin()+1,a.begin()+1061); return out; }
struct Blowfish: Block {
  unsigned n; std::vector<u32> P; u32 S[4][256];
  u32 F(u32 x){ return ((S[0][x>>24]+S[1][x>>16&255])^S[2][x>>8&255])+S[3][x&255]; }
  void e(u32&L,u32&R){ for(unsigned i=0;i<n;i++){ L^=P[i]; R^=F(L); std::swap(L,R);} std::swap(L,R); R^=P[n]; L^=P[n+1]; }
  void d(u32&L,u32&R){ L^=P[n+1]; R^=P[n]; std::swap(L,R); for(unsigned i=n;i-->0;){ std::swap(L,R); R^=F(L); L^=P[i]; } }
  Blowfish(unsigned n,const Bytes&key):n(n){ auto&pi=pidigits(); P.assign(pi.begin(),pi.begin()+n+2); for(int i=0;i<1024;i++) S[i/256][i%256]=pi[n+2+i];
    size_t j=0; for(auto&p:P){ u32 t=0; for(int q=0;q<4;q++){ t=t<<8|key[j]; j=(j+1)%key.size(); } p^=t; }
    u32 L=0,R=0; for(unsigned i=0;i<n+2;i+=2){ e(L,R); P[i]=L; if(i+1<n+2) P[i+1]=R; }
    for(int i=0;i<1024;i+=2){ e(L,R); S[i/256][i%256]=L; S[i/256][i%256+1]=R; } }
  void enc(const u8*in,u8*out){ u32 L=ldb<u32>(in),R=ldb<u32>(in+4); e(L,R); stb(L,out); stb(R,out+4); }
  void dec(const u8*in,u8*out){ u32 L=ldb<u32>(in),R=ldb<u32>(in+4); d(L,R); stb(L,out); stb(R,out+4); }
};

// ---------- Camellia (RFC 3713) ----------
struct Camellia: Block {
  bool big; u64 kw[4],k[24],ke[6];
  static u64 F(u64 x,u64 ke){ x^=ke; u8 t[8]; for(int i=0;i<8;i++) t[i]=(u8)(x>>(56-8*i)); auto s1=[](u8 v){return CAM_S[v];}; auto s2=[](u8 v){return rl8(CAM_S[v],1);}; auto s3=[](u8 v){return rl8(CAM_S[v],7);}; auto s4=[](u8 v){return CAM_S[rl8(v,1)];};
    t[0]=s1(t[0]);t[1]=s2(t[1]);t[2]=s3(t[2]);t[3]=s4(t[3]);t[4]=s2(t[4]);t[5]=s3(t[5]);t[6]=s4(t[6]);t[7]=s1(t[7]);
    u8 y[8]; y[0]=t[0]^t[2]^t[3]^t[5]^t[6]^t[7]; y[1]=t[0]^t[1]^t[3]^t[4]^t[6]^t[7]; y[2]=t[0]^t[1]^t[2]^t[4]^t[5]^t[7]; y[3]=t[1]^t[2]^t[3]^t[4]^t[5]^t[6];
    y[4]=t[0]^t[1]^t[5]^t[6]^t[7]; y[5]=t[1]^t[2]^t[4]^t[6]^t[7]; y[6]=t[2]^t[3]^t[4]^t[5]^t[7]; y[7]=t[0]^t[3]^t[4]^t[5]^t[6]; return ldb<u64>(y); }
  static u64 FL(u64 x,u64 k){ u32 a=x>>32,b=(u32)x; b^=rl32(a&(u32)(k>>32),1); a^=b|(u32)k; return (u64)a<<32|b; }
  static u64 FLI(u64 y,u64 k){ u32 a=y>>32,b=(u32)y; a^=b|(u32)k; b^=rl32(a&(u32)(k>>32),1); return (u64)a<<32|b; }
  struct W{u64 h,l;}; static W rot(W x,unsigned n){ if(n>=64){ std::swap(x.h,x.l); n-=64; } if(!n) return x; return {x.h<<n|x.l>>(64-n),x.l<<n|x.h>>(64-n)}; }
  Camellia(unsigned,const Bytes&key){ big=key.size()>16; Bytes K=key;
    // the library's 64 bit unit: 8 and 24 byte keys are extended by their complement
    K=zpad(K,K.size()<=8?8:K.size()<=16?16:K.size()<=24?24:32);
    if(K.size()==8||K.size()==24){ size_t n=K.size(); for(size_t i=0;i<8;i++) K.push_back(~K[n-8+i]); }
    K=zpad(K,32); W KL{ldb<u64>(&K[0]),ldb<u64>(&K[8])},KR{ldb<u64>(&K[16]),ldb<u64>(&K[24])};
    u64 d1=KL.h^KR.h,d2=KL.l^KR.l; d2^=F(d1,0xA09E667F3BCC908BULL); d1^=F(d2,0xB67AE8584CAA73B2ULL); d1^=KL.h; d2^=KL.l; d2^=F(d1,0xC6EF372FE94F82BEULL); d1^=F(d2,0x54FF53A5F1D36F1CULL); W KA{d1,d2};
    d1=KA.h^KR.h; d2=KA.l^KR.l; d2^=F(d1,0x10E527FADE682D1DULL); d1^=F(d2,0xB05688C2B3E6C1FDULL); W KB{d1,d2};
    kw[0]=KL.h; kw[1]=KL.l; W t; int i=0,j=0; auto P=[&](W w,unsigned n){ W q=rot(w,n); k[i++]=q.h; k[i++]=q.l; }; auto E=[&](W w,unsigned n){ W q=rot(w,n); ke[j++]=q.h; ke[j++]=q.l; };
    if(!big){ P(KA,0);P(KL,15);P(KA,15);E(KA,30);P(KL,45); k[i++]=rot(KA,45).h; k[i++]=rot(KL,60).l; P(KA,60);E(KL,77);P(KL,94);P(KA,94);P(KL,111); t=rot(KA,111); }
    else { P(KB,0);P(KR,15);P(KA,15);E(KR,30);P(KB,30);P(KL,45);P(KA,45);E(KL,60);P(KR,60);P(KB,60);P(KL,77);E(KA,77);P(KR,94);P(KA,94);P(KL,111); t=rot(KB,111); }
    kw[2]=t.h; kw[3]=t.l; }
  void enc(const u8*in,u8*out){ u64 a=ldb<u64>(in)^kw[0],b=ldb<u64>(in+8)^kw[1]; int n=big?24:18; for(int i=0;i<n;i++){ if(i&&i%6==0){ a=FL(a,ke[i/3-2]); b=FLI(b,ke[i/3-1]); } if(i%2==0) b^=F(a,k[i]); else a^=F(b,k[i]); } stb(b^kw[2],out); stb(a^kw[3],out+8); }
  void dec(const u8*in,u8*out){ u64 b=ldb<u64>(in)^kw[2],a=ldb<u64>(in+8)^kw[3]; int n=big?24:18; for(int i=n-1;i>=0;i--){ if(i%2==0) b^=F(a,k[i]); else a^=F(b,k[i]); if(i&&i%6==0){ a=FLI(a,ke[i/3-2]); b=FL(b,ke[i/3-1]); } } stb(a^kw[0],out); stb(b^kw[1],out+8); }
};

// ---------- CAST-128 (RFC 2144) ----------
struct Cast5: Block {
  unsigned r; u32 Km[16]; u8 Kr[16];
  static u32 S(int n,u8 x){ return CAST_S[256*(n-1)+x]; }
  Cast5(unsigned,const Bytes&key){ r=key.size()<=10?12:16; u8 x[16]={0},z[16]; memcpy(x,&key[0],key.size()); u32 K[32];
    auto W=[&](u8*d,int o,u32 v){ stb(v,d+o); };
    auto A=[&](){ W(z,0,ldb<u32>(x)^S(5,x[13])^S(6,x[15])^S(7,x[12])^S(8,x[14])^S(7,x[8])); W(z,4,ldb<u32>(x+8)^S(5,z[0])^S(6,z[2])^S(7,z[1])^S(8,z[3])^S(8,x[10])); W(z,8,ldb<u32>(x+12)^S(5,z[7])^S(6,z[6])^S(7,z[5])^S(8,z[4])^S(5,x[9])); W(z,12,ldb<u32>(x+4)^S(5,z[10])^S(6,z[9])^S(7,z[11])^S(8,z[8])^S(6,x[11])); };
    auto B=[&](){ W(x,0,ldb<u32>(z+8)^S(5,z[5])^S(6,z[7])^S(7,z[4])^S(8,z[6])^S(7,z[0])); W(x,4,ldb<u32>(z)^S(5,x[0])^S(6,x[2])^S(7,x[1])^S(8,x[3])^S(8,z[2])); W(x,8,ldb<u32>(z+4)^S(5,x[7])^S(6,x[6])^S(7,x[5])^S(8,x[4])^S(5,z[1])); W(x,12,ldb<u32>(z+12)^S(5,x[10])^S(6,x[9])^S(7,x[11])^S(8,x[8])^S(6,z[3])); };
    static const u8 T[4][4][5]={{{8,9,7,6,2},{10,11,5,4,6},{12,13,3,2,9},{14,15,1,0,12}},{{3,2,12,13,8},{1,0,14,15,13},{7,6,8,9,3},{5,4,10,11,7}},{{3,2,12,13,9},{1,0,14,15,12},{7,6,8,9,2},{5,4,10,11,6}},{{8,9,7,6,3},{10,11,5,4,7},{12,13,3,2,8},{14,15,1,0,13}}};
    for(int q=0;q<8;q++){ u8*d; if(q%2==0){ A(); d=z; } else { B(); d=x; } for(int i=0;i<4;i++){ const u8*t=T[q%4][i]; K[4*q+i]=S(5,d[t[0]])^S(6,d[t[1]])^S(7,d[t[2]])^S(8,d[t[3]])^S(5+i,d[t[4]]); } }
    for(int i=0;i<16;i++){ Km[i]=K[i]; Kr[i]=K[16+i]&31; } }
  u32 f(u32 d,int i){ u32 I; int t=i%3; I=rl32(t==0?Km[i]+d:t==1?Km[i]^d:Km[i]-d,Kr[i]); u32 a=S(1,I>>24),b=S(2,I>>16&255),c=S(3,I>>8&255),e=S(4,I&255); return t==0?((a^b)-c)+e:t==1?((a-b)+c)^e:((a+b)^c)-e; }
  void enc(const u8*in,u8*out){ u32 L=ldb<u32>(in),R=ldb<u32>(in+4); for(unsigned i=0;i<r;i++){ u32 t=R; R=L^f(R,i); L=t; } stb(R,out); stb(L,out+4); }
  void dec(const u8*in,u8*out){ u32 R=ldb<u32>(in),L=ldb<u32>(in+4); for(unsigned i=r;i-->0;){ u32 t=L; L=R^f(L,i); R=t; } stb(L,out); stb(R,out+4); }
};

// ---------- CRAX-S / TRAX ----------
static const u32 RCON8[8]={0xB7E15162,0xBF715880,0x38B4DA56,0x324E7738,0xBB1185EB,0x4F7C7B57,0xCFBFA1C8,0xC2B3293D};
static void alz(u32&x,u32&y,u32 c){ static const int r[4]={31,17,0,24},s[4]={24,17,31,16}; for(int i=0;i<4;i++){ x+=rr32(y,r[i]); y^=rr32(x,s[i]); x^=c; } }
static void alzi(u32&x,u32&y,u32 c){ static const int r[4]={31,17,0,24},s[4]={24,17,31,16}; for(int i=3;i>=0;i--){ x^=c; y^=rr32(x,s[i]); x-=rr32(y,r[i]); } }
struct Crax: Block { unsigned n; u32 k[4];
  Crax(unsigned n,const Bytes&key):n(n){ Bytes K=zpad(key,16); for(int i=0;i<4;i++) k[i]=ldl<u32>(&K[4*i]); }
  void enc(const u8*in,u8*out){ u32 x=ldl<u32>(in),y=ldl<u32>(in+4); for(unsigned s=0;s<n;s++){ x^=s; x^=k[s%2*2]; y^=k[s%2*2+1]; alz(x,y,RCON8[s%5]); } x^=k[n%2*2]; y^=k[n%2*2+1]; stl(x,out); stl(y,out+4); }
  void dec(const u8*in,u8*out){ u32 x=ldl<u32>(in),y=ldl<u32>(in+4); x^=k[n%2*2]; y^=k[n%2*2+1]; for(unsigned s=n;s-->0;){ alzi(x,y,RCON8[s%5]); x^=k[s%2*2]; y^=k[s%2*2+1]; x^=s; } stl(x,out); stl(y,out+4); }
};
template<int NB> struct Trax: Block { unsigned n; std::vector<u32> sk; u32 t[NB]; // NB branches
  Trax(unsigned n,const Bytes&key):n(n){ memset(t,0,sizeof t); Bytes K=zpad(key,8*NB); u32 k[2*NB]; for(int i=0;i<2*NB;i++) k[i]=ldl<u32>(&K[4*i]);
    for(unsigned s=0;s<=n;s++){ for(int i=0;i<2*NB;i++) sk.push_back(k[i]);
      if(NB==2){ k[0]+=k[1]+RCON8[s%8]; k[2]^=k[3]^s; } else { k[0]+=k[1]+RCON8[(2*s)%8]; k[2]^=k[3]^s; k[4]+=k[5]+RCON8[(2*s+1)%8]; k[6]^=k[7]^(s<<16); }
      std::rotate(k,k+1,k+2*NB); } }
  void tweak(const Bytes&tw){ Bytes T=zpad(tw,4*NB); for(int i=0;i<NB;i++) t[i]=ldl<u32>(&T[4*i]); }
  static u32 ell(u32 x){ return rl32(x^(x<<16),16); }
  static void lin(u32*x,u32*y){ if(NB==2){ u32 a=x[0]^x[1]; x[1]=x[0]; x[0]=a; a=y[0]^y[1]; y[1]=y[0]; y[0]=a; } else { u32 tx=ell(x[2]^x[3]),ty=ell(y[2]^y[3]); u32 nx[4]={x[3],x[2],x[0]^ty,x[1]^ty},ny[4]={y[3],y[2],y[0]^tx,y[1]^tx}; memcpy(x,nx,16); memcpy(y,ny,16);} }
  static void lini(u32*x,u32*y){ if(NB==2){ u32 a=x[1]; x[1]=x[0]^a; x[0]=a; a=y[1]; y[1]=y[0]^a; y[0]=a; } else { u32 tx=ell(x[1]^x[0]),ty=ell(y[1]^y[0]); u32 nx[4]={x[2]^ty,x[3]^ty,x[1],x[0]},ny[4]={y[2]^tx,y[3]^tx,y[1],y[0]}; memcpy(x,nx,16); memcpy(y,ny,16);} }
  void key(u32*x,u32*y,unsigned s,bool tw){ for(int i=0;i<NB;i++){ x[i]^=sk[2*NB*s+2*i]; y[i]^=sk[2*NB*s+2*i+1]; } if(tw&&s%2) for(int i=0;i<NB/2;i++){ x[i]^=t[2*i]; y[i]^=t[2*i+1]; } }
  void enc(const u8*in,u8*out){ u32 x[4],y[4]; for(int i=0;i<NB;i++){ x[i]=ldl<u32>(in+8*i); y[i]=ldl<u32>(in+8*i+4); } for(unsigned s=0;s<n;s++){ key(x,y,s,true); for(int i=0;i<NB;i++) alz(x[i],y[i],RCON8[(NB*s+i)%8]); lin(x,y); } key(x,y,n,false); for(int i=0;i<NB;i++){ stl(x[i],out+8*i); stl(y[i],out+8*i+4); } }
  void dec(const u8*in,u8*out){ u32 x[4],y[4]; for(int i=0;i<NB;i++){ x[i]=ldl<u32>(in+8*i); y[i]=ldl<u32>(in+8*i+4); } key(x,y,n,false); for(unsigned s=n;s-->0;){ lini(x,y); for(int i=0;i<NB;i++) alzi(x[i],y[i],RCON8[(NB*s+i)%8]); key(x,y,s,true); } for(int i=0;i<NB;i++){ stl(x[i],out+8*i); stl(y[i],out+8*i+4); } }
};

// ---------- DES / 3DES (FIPS 46-3, bit by bit) ----------
static u64 perm(u64 src,const u8*p,int n){ u64 r=0; for(int i=0;i<n;i++) r|=(src>>p[i]&1)<<(n-1-i); return r; }
struct Des: Block { bool three; u64 k[3][16];
  static void sched(const u8*key,u64*ks){ static const int R[16]={1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1}; u64 p=perm(ldb<u64>(key),DES_permutedChoice1,56); u32 c=p>>28,d=p&0xFFFFFFF; for(int i=0;i<16;i++){ c=(c<<R[i]|c>>(28-R[i]))&0xFFFFFFF; d=(d<<R[i]|d>>(28-R[i]))&0xFFFFFFF; ks[i]=perm((u64)c<<28|d,DES_permutedChoice2,48); } }
  Des(unsigned,const Bytes&key){ size_t n=key.size(); three=n>8; Bytes K=zpad(key,n<=8?8:n<=16?16:24); if(K.size()==16) K.insert(K.end(),K.begin(),K.begin()+8); for(size_t i=0;i<K.size()/8;i++) sched(&K[8*i],k[i]); }
  static u64 one(u64 b,const u64*ks,bool d){ b=perm(b,DES_initialPermutation,64); u32 L=b>>32,R=(u32)b; for(int i=0;i<16;i++){ u64 e=perm(R,DES_expansionFunction,48)^ks[d?15-i:i]; u32 s=0; for(int j=0;j<8;j++){ int v=e>>(42-6*j)&63; int row=(v>>4&2)|(v&1),col=v>>1&15; s=s<<4|DES_S[64*j+16*row+col]; } u32 t=R; R=L^(u32)perm(s,DES_permutationFunction,32); L=t; } return perm((u64)R<<32|L,DES_finalPermutation,64); }
  void enc(const u8*in,u8*out){ u64 b=ldb<u64>(in); b=one(b,k[0],false); if(three){ b=one(b,k[1],true); b=one(b,k[2],false);} stb(b,out); }
  void dec(const u8*in,u8*out){ u64 b=ldb<u64>(in); if(three){ b=one(b,k[2],true); b=one(b,k[1],false);} b=one(b,k[0],true); stb(b,out); }
};

// ---------- GOST 28147-89 ----------
struct Gost: Block { unsigned r; u8 s[8][16]; std::vector<u32> k;
  Gost(const u8 sb[8][16],unsigned r,const Bytes&key):r(r){ memcpy(s,sb,128); unsigned n=(key.size()+3)/4; Bytes K=zpad(key,4*n); for(unsigned i=0;i<r;i++){ unsigned j= i<r-n ? i%n : r-1-i; k.push_back(ldl<u32>(&K[4*j])); } }
  u32 f(u32 x){ u32 y=0; for(int i=0;i<8;i++) y|=(u32)s[i][x>>(4*i)&15]<<(4*i); return rl32(y,11); }
  void run(const u8*in,u8*out,bool d){ u32 a=ldl<u32>(in),b=ldl<u32>(in+4); for(unsigned i=0;i<r;i++){ u32 t=b^f(a+k[d?r-1-i:i]); b=a; a=t; } stl(b,out); stl(a,out+4); }
  void enc(const u8*in,u8*out){ run(in,out,false); } void dec(const u8*in,u8*out){ run(in,out,true); }
};
BP gost(const u8 s[8][16],unsigned r,const Bytes&key){ return BP(new Gost(s,r?r:32,key)); }
static const u8 GOST_CBR[8][16]={{4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3},{14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9},{5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11},{7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3},{6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2},{4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14},{13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12},{1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12}};
static const u8 GOST_R34[8][16]={{12,4,6,2,10,5,11,9,14,8,13,7,0,3,15,1},{6,8,2,3,9,10,5,12,1,14,4,7,11,13,0,15},{11,3,5,8,2,15,10,13,14,1,7,4,12,9,6,0},{12,8,2,1,13,4,15,6,7,0,10,5,3,14,9,11},{7,15,5,10,8,1,6,13,0,9,3,14,11,4,2,12},{5,13,15,6,9,2,12,10,11,7,8,1,4,3,14,0},{8,14,2,5,6,9,1,12,15,4,11,0,13,10,3,7},{1,7,14,13,0,5,8,3,4,15,10,6,9,12,11,2}};

// ---------- IDEA ----------
struct Idea: Block { unsigned r; std::vector<u16> e,d;
  static u16 mul(u16 a,u16 b){ u64 x=a?a:65536,y=b?b:65536; return (u16)((x*y%65537)&0xFFFF); }
  static u16 inv(u16 a){ u64 x=a?a:65536,res=1; unsigned e=65535; u64 base=x; while(e){ if(e&1) res=res*base%65537; base=base*base%65537; e>>=1; } return (u16)(res&0xFFFF); }
  Idea(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,16); u64 h=ldb<u64>(&K[0]),l=ldb<u64>(&K[8]); unsigned n=6*r+4; while(e.size()<n){ for(int i=0;i<8&&e.size()<n;i++) e.push_back(i<4?(u16)(h>>(48-16*i)):(u16)(l>>(48-16*(i-4)))); u64 nh=h<<25|l>>39,nl=l<<25|h>>39; h=nh; l=nl; }
    for(unsigned i=0;i<=r;i++){ unsigned o=6*(r-i); bool sw=i>0&&i<r; d.push_back(inv(e[o])); d.push_back((u16)-e[o+(sw?2:1)]); d.push_back((u16)-e[o+(sw?1:2)]); d.push_back(inv(e[o+3])); if(i<r){ d.push_back(e[o-2]); d.push_back(e[o-1]); } } }
  void run(const std::vector<u16>&k,const u8*in,u8*out){ u16 a=ldb<u16>(in),b=ldb<u16>(in+2),c=ldb<u16>(in+4),x=ldb<u16>(in+6); size_t i=0; for(unsigned q=0;q<r;q++,i+=6){ a=mul(a,k[i]); b+=k[i+1]; c+=k[i+2]; x=mul(x,k[i+3]); u16 p=a^c,s=b^x; p=mul(p,k[i+4]); s=mul((u16)(s+p),k[i+5]); p+=s; a^=s; c^=s; b^=p; x^=p; std::swap(b,c); } std::swap(b,c); stb<u16>(mul(a,k[i]),out); stb<u16>(b+k[i+1],out+2); stb<u16>(c+k[i+2],out+4); stb<u16>(mul(x,k[i+3]),out+6); }
  void enc(const u8*in,u8*out){ run(e,in,out); } void dec(const u8*in,u8*out){ run(d,in,out); }
};

// ---------- LEA ----------
struct Lea: Block { unsigned r; std::vector<u32> k;
  Lea(unsigned r,const Bytes&key):r(r){ static const u32 D[8]={0xc3efe9db,0x44626b02,0x79e27c8a,0x78df30ec,0x715ea49e,0xc785da0a,0xe04ef22a,0xe5c40957}; static const int R[6]={1,3,6,11,13,17}; unsigned n=key.size()<=16?4:key.size()<=24?6:8; Bytes K=zpad(key,4*n); u32 t[8]; for(unsigned i=0;i<n;i++) t[i]=ldl<u32>(&K[4*i]);
    for(unsigned i=0;i<r;i++){ unsigned m=n==4?4:6; for(unsigned j=0;j<m;j++){ u32&x=t[n==8?(6*i+j)%8:j]; x=rl32(x+rl32(D[i%n],(i+j)%32),R[j]); }
      if(n==4){ u32 v[6]={t[0],t[1],t[2],t[1],t[3],t[1]}; k.insert(k.end(),v,v+6); } else for(int j=0;j<6;j++) k.push_back(t[n==8?(6*i+j)%8:j]); } }
  void enc(const u8*in,u8*out){ u32 x[4]; for(int i=0;i<4;i++) x[i]=ldl<u32>(in+4*i); for(unsigned i=0;i<r;i++){ const u32*q=&k[6*i]; u32 a=rl32((x[0]^q[0])+(x[1]^q[1]),9),b=rr32((x[1]^q[2])+(x[2]^q[3]),5),c=rr32((x[2]^q[4])+(x[3]^q[5]),3); x[3]=x[0]; x[0]=a; x[1]=b; x[2]=c; } for(int i=0;i<4;i++) stl(x[i],out+4*i); }
  void dec(const u8*in,u8*out){ u32 x[4]; for(int i=0;i<4;i++) x[i]=ldl<u32>(in+4*i); for(unsigned i=r;i-->0;){ const u32*q=&k[6*i]; u32 a=x[3],b=(rr32(x[0],9)-(a^q[0]))^q[1],c=(rl32(x[1],5)-(b^q[2]))^q[3],d=(rl32(x[2],3)-(c^q[4]))^q[5]; x[0]=a; x[1]=b; x[2]=c; x[3]=d; } for(int i=0;i<4;i++) stl(x[i],out+4*i); }
};

// ---------- NOEKEON (direct key mode) ----------
struct Noekeon: Block { unsigned r; u32 k[4];
  Noekeon(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,16); for(int i=0;i<4;i++) k[i]=ldb<u32>(&K[4*i]); }
  static u32 rc(unsigned i){ u8 c=0x80; while(i--) c=(c<<1)^(c&0x80?0x1B:0); return c; }
  static void theta(const u32*k,u32*a){ u32 t=a[0]^a[2]; t^=rr32(t,8)^rl32(t,8); a[1]^=t; a[3]^=t; for(int i=0;i<4;i++) a[i]^=k[i]; t=a[1]^a[3]; t^=rr32(t,8)^rl32(t,8); a[0]^=t; a[2]^=t; }
  static void gamma(u32*a){ a[1]^=~a[3]&~a[2]; a[0]^=a[2]&a[1]; std::swap(a[3],a[0]); a[2]^=a[0]^a[1]^a[3]; a[1]^=~a[3]&~a[2]; a[0]^=a[2]&a[1]; }
  static void pi1(u32*a){ a[1]=rl32(a[1],1); a[2]=rl32(a[2],5); a[3]=rl32(a[3],2); } static void pi2(u32*a){ a[1]=rr32(a[1],1); a[2]=rr32(a[2],5); a[3]=rr32(a[3],2); }
  void enc(const u8*in,u8*out){ u32 a[4]; for(int i=0;i<4;i++) a[i]=ldb<u32>(in+4*i); for(unsigned i=0;i<r;i++){ a[0]^=rc(i); theta(k,a); pi1(a); gamma(a); pi2(a); } a[0]^=rc(r); theta(k,a); for(int i=0;i<4;i++) stb(a[i],out+4*i); }
  void dec(const u8*in,u8*out){ u32 a[4],z[4]={0,0,0,0},kk[4]; memcpy(kk,k,16); theta(z,kk); for(int i=0;i<4;i++) a[i]=ldb<u32>(in+4*i); for(unsigned i=r;i>0;i--){ theta(kk,a); a[0]^=rc(i); pi1(a); gamma(a); pi2(a); } theta(kk,a); a[0]^=rc(0); for(int i=0;i<4;i++) stb(a[i],out+4*i); }
};

// ---------- RC2 (RFC 2268), effective bits = 8*len ----------
struct Rc2: Block { u16 K[64];
  Rc2(unsigned,const Bytes&key){ size_t T=key.size(),T8=T; u8 L[128]; memcpy(L,&key[0],T); for(size_t i=T;i<128;i++) L[i]=RC2_PI[(u8)(L[i-1]+L[i-T])]; L[128-T8]=RC2_PI[L[128-T8]&0xFF]; for(int i=127-(int)T8;i>=0;i--) L[i]=RC2_PI[L[i+1]^L[i+T8]]; for(int i=0;i<64;i++) K[i]=ldl<u16>(L+2*i); }
  void enc(const u8*in,u8*out){ static const int s[4]={1,2,3,5}; u16 R[4]; for(int i=0;i<4;i++) R[i]=ldl<u16>(in+2*i); int j=0; for(int q=0;q<16;q++){ for(int i=0;i<4;i++) R[i]=rl16((u16)(R[i]+K[j++]+(R[(i+3)&3]&R[(i+2)&3])+(~R[(i+3)&3]&R[(i+1)&3])),s[i]); if(q==4||q==10) for(int i=0;i<4;i++) R[i]+=K[R[(i+3)&3]&63]; } for(int i=0;i<4;i++) stl(R[i],out+2*i); }
  void dec(const u8*in,u8*out){ static const int s[4]={1,2,3,5}; u16 R[4]; for(int i=0;i<4;i++) R[i]=ldl<u16>(in+2*i); int j=63; for(int q=15;q>=0;q--){ if(q==4||q==10) for(int i=3;i>=0;i--) R[i]-=K[R[(i+3)&3]&63]; for(int i=3;i>=0;i--) R[i]=(u16)(rr16(R[i],s[i])-K[j--]-(R[(i+3)&3]&R[(i+2)&3])-(~R[(i+3)&3]&R[(i+1)&3])); } for(int i=0;i<4;i++) stl(R[i],out+2*i); }
};

// ---------- RC5-32 / RC6-32 ----------
static std::vector<u32> rcsched(unsigned t,const Bytes&key){ unsigned c=std::max<unsigned>(1,(key.size()+3)/4); Bytes K=zpad(key,4*c); std::vector<u32> L(c),S(t); for(unsigned i=0;i<c;i++) L[i]=ldl<u32>(&K[4*i]); S[0]=0xB7E15163; for(unsigned i=1;i<t;i++) S[i]=S[i-1]+0x9E3779B9; u32 A=0,B=0; unsigned i=0,j=0; for(unsigned n=0;n<3*std::max(t,c);n++){ A=S[i]=rl32(S[i]+A+B,3); B=L[j]=rl32(L[j]+A+B,A+B); i=(i+1)%t; j=(j+1)%c; } return S; }
struct Rc5: Block { unsigned r; std::vector<u32> S; Rc5(unsigned r,const Bytes&k):r(r),S(rcsched(2*(r+1),k)){}
  void enc(const u8*in,u8*out){ u32 A=ldl<u32>(in)+S[0],B=ldl<u32>(in+4)+S[1]; for(unsigned i=1;i<=r;i++){ A=rl32(A^B,B)+S[2*i]; B=rl32(B^A,A)+S[2*i+1]; } stl(A,out); stl(B,out+4); }
  void dec(const u8*in,u8*out){ u32 A=ldl<u32>(in),B=ldl<u32>(in+4); for(unsigned i=r;i>=1;i--){ B=rr32(B-S[2*i+1],A)^A; A=rr32(A-S[2*i],B)^B; } stl(A-S[0],out); stl(B-S[1],out+4); }
};
struct Rc6: Block { unsigned r; std::vector<u32> S; Rc6(unsigned r,const Bytes&k):r(r),S(rcsched(2*r+4,k)){}
  void enc(const u8*in,u8*out){ u32 A=ldl<u32>(in),B=ldl<u32>(in+4)+S[0],C=ldl<u32>(in+8),D=ldl<u32>(in+12)+S[1]; for(unsigned i=1;i<=r;i++){ u32 t=rl32(B*(2*B+1),5),u=rl32(D*(2*D+1),5); A=rl32(A^t,u)+S[2*i]; C=rl32(C^u,t)+S[2*i+1]; u32 x=A; A=B; B=C; C=D; D=x; } A+=S[2*r+2]; C+=S[2*r+3]; stl(A,out); stl(B,out+4); stl(C,out+8); stl(D,out+12); }
  void dec(const u8*in,u8*out){ u32 A=ldl<u32>(in),B=ldl<u32>(in+4),C=ldl<u32>(in+8),D=ldl<u32>(in+12); C-=S[2*r+3]; A-=S[2*r+2]; for(unsigned i=r;i>=1;i--){ u32 x=D; D=C; C=B; B=A; A=x; u32 u=rl32(D*(2*D+1),5),t=rl32(B*(2*B+1),5); C=rr32(C-S[2*i+1],t)^u; A=rr32(A-S[2*i],u)^t; } D-=S[1]; B-=S[0]; stl(A,out); stl(B,out+4); stl(C,out+8); stl(D,out+12); }
};

// ---------- RECTANGLE ----------
struct Rectangle: Block { unsigned r; std::vector<u16> k; // 4 per round
  static const u8* SB(){ static const u8 S[16]={6,5,12,10,1,14,7,9,11,0,3,13,8,15,4,2}; return S; }
  template<class T> static void cols(T*w,int n,const u8*S){ for(int c=0;c<n;c++){ int v=0; for(int i=0;i<4;i++) v|=(w[i]>>c&1)<<i; int y=S[v]; for(int i=0;i<4;i++) w[i]=(T)((w[i]&~((T)1<<c))|((T)(y>>i&1)<<c)); } }
  Rectangle(unsigned r,const Bytes&key):r(r){ // byte order as in the library: row words big endian, row 0 first
    u8 rc=1; if(key.size()>10){ Bytes K=zpad(key,16); u32 w[4]; for(int i=0;i<4;i++) w[i]=ldb<u32>(&K[4*i]); for(unsigned i=0;i<=r;i++){ for(int j=0;j<4;j++) k.push_back((u16)w[j]); cols(w,8,SB()); u32 a=rl32(w[0],8)^w[1],b=w[2],c=rl32(w[2],16)^w[3],d=w[0]; w[0]=a^rc; w[1]=b; w[2]=c; w[3]=d; rc=((rc<<1)|((rc>>4^rc>>2)&1))&31; } }
    else { Bytes K=zpad(key,10); u16 w[5]; for(int i=0;i<5;i++) w[i]=ldb<u16>(&K[2*i]); for(unsigned i=0;i<=r;i++){ for(int j=0;j<4;j++) k.push_back(w[j]); cols(w,4,SB()); u16 a=rl16(w[0],8)^w[1],b=w[2],c=w[3],d=rl16(w[3],12)^w[4],e=w[0]; w[0]=a^rc; w[1]=b; w[2]=c; w[3]=d; w[4]=e; rc=((rc<<1)|((rc>>4^rc>>2)&1))&31; } } }
  void enc(const u8*in,u8*out){ u16 w[4]; for(int i=0;i<4;i++) w[i]=ldb<u16>(in+2*i); for(unsigned i=0;i<r;i++){ for(int j=0;j<4;j++) w[j]^=k[4*i+j]; cols(w,16,SB()); w[1]=rl16(w[1],1); w[2]=rl16(w[2],12); w[3]=rl16(w[3],13); } for(int j=0;j<4;j++) stb<u16>(w[j]^k[4*r+j],out+2*j); }
  void dec(const u8*in,u8*out){ u8 I[16]; for(int i=0;i<16;i++) I[SB()[i]]=i; u16 w[4]; for(int j=0;j<4;j++) w[j]=ldb<u16>(in+2*j)^k[4*r+j]; for(unsigned i=r;i-->0;){ w[1]=rr16(w[1],1); w[2]=rr16(w[2],12); w[3]=rr16(w[3],13); cols(w,16,I); for(int j=0;j<4;j++) w[j]^=k[4*i+j]; } for(int j=0;j<4;j++) stb(w[j],out+2*j); }
};

// ---------- SAFER K / SK-64/128, SAFER++ ----------
struct ExpLog { u8 e[256],l[256]; ExpLog(){ unsigned v=1; for(int i=0;i<256;i++){ e[i]=(u8)v; l[(u8)v]=i; v=v*45%257; } } };
static const ExpLog& el(){ static ExpLog t; return t; }
struct Safer: Block { unsigned r; std::vector<Bytes> k; // 2r+1 keys of 8
  Safer(unsigned r,const Bytes&key,bool sk):r(r){ Bytes K=zpad(key,key.size()<=8?8:16); if(K.size()==8) K.insert(K.end(),K.begin(),K.begin()+8); u8 A[9],B[9]; A[8]=B[8]=0; Bytes k1(8); for(int i=0;i<8;i++){ A[i]=rl8(K[i],5); A[8]^=A[i]; B[i]=k1[i]=K[8+i]; B[8]^=B[i]; } k.push_back(k1);
    for(unsigned i=2;i<=2*r+1;i++){ if(i%2==0){ for(auto&v:A) v=rl8(v,6); for(auto&v:B) v=rl8(v,6);} u8*X=i%2?B:A; Bytes t(8); for(int j=0;j<8;j++) t[j]=X[sk?(i-1+j)%9:j]+el().e[el().e[(u8)(9*i+j+1)]]; k.push_back(t); } }
  static bool xe(int i){ return i%4==0||i%4==3; }
  void enc(const u8*in,u8*out){ u8 x[8]; memcpy(x,in,8); for(unsigned q=0;q<r;q++){ for(int i=0;i<8;i++){ u8 a=k[2*q][i],b=k[2*q+1][i]; if(xe(i)) x[i]=(u8)(el().e[x[i]^a]+b); else x[i]=el().l[(u8)(x[i]+a)]^b; }
      for(int lv=0;lv<3;lv++){ u8 y[8]; for(int i=0;i<4;i++){ u8 a=x[2*i],b=x[2*i+1]; y[i]=2*a+b; y[4+i]=a+b; } memcpy(x,y,8); if(lv==2){ /* after the third PHT the outputs are interleaved back */ } }
      // three levels of (PHT, decimation by 2); the last decimation is not applied
      u8 z[8]; for(int i=0;i<4;i++){ z[2*i]=x[i]; z[2*i+1]=x[4+i]; } memcpy(x,z,8); }
    for(int i=0;i<8;i++) out[i]=xe(i)?x[i]^k[2*r][i]:(u8)(x[i]+k[2*r][i]); }
  void dec(const u8*in,u8*out){ u8 x[8]; for(int i=0;i<8;i++) x[i]=xe(i)?in[i]^k[2*r][i]:(u8)(in[i]-k[2*r][i]); for(unsigned q=r;q-->0;){
      for(int lv=0;lv<3;lv++){ u8 y[8],s[8]; if(lv==0) memcpy(s,x,8); else for(int i=0;i<4;i++){ s[2*i]=x[i]; s[2*i+1]=x[4+i]; } for(int i=0;i<4;i++){ u8 a=s[2*i]-s[2*i+1],b=2*s[2*i+1]-s[2*i]; y[2*i]=a; y[2*i+1]=b; } memcpy(x,y,8); }
      for(int i=0;i<8;i++){ u8 a=k[2*q][i],b=k[2*q+1][i]; if(xe(i)) x[i]=el().l[(u8)(x[i]-b)]^a; else x[i]=el().e[(u8)(x[i]^b)]-a; } } memcpy(out,x,8); }
};
struct SaferPP: Block { unsigned r; std::vector<Bytes> k;
  SaferPP(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,key.size()<=16?16:32); if(K.size()==16) K.insert(K.end(),K.begin(),K.begin()+16); u8 A[17],B[17]; A[16]=B[16]=0; Bytes k1(16); for(int i=0;i<16;i++){ A[i]=rl8(K[16+i],5); A[16]^=A[i]; B[i]=k1[i]=K[i]; B[16]^=B[i]; } k.push_back(k1);
    for(unsigned i=2;i<=2*r+1;i++){ if(i%2==0){ for(auto&v:A) v=rl8(v,6); for(auto&v:B) v=rl8(v,6);} u8*X=i%2?B:A; Bytes t(16); for(int j=0;j<16;j++){ u8 b=el().e[(u8)(17*i+j+1)]; if(i<16) b=el().e[b]; t[j]=X[(i-1+j)%17]+b; } k.push_back(t); } }
  static bool xe(int i){ return i%4==0||i%4==3; }
  static const u8* sh(){ static const u8 S[16]={8,5,2,15,0,13,10,7,4,1,14,11,12,9,6,3}; return S; } // Armenian shuffle
  static void layer(u8*x){ u8 y[16]; for(int i=0;i<16;i++) y[i]=x[sh()[i]]; for(int g=0;g<4;g++){ u8*a=y+4*g; u8 s=a[0]+a[1]+a[2]+a[3]; x[4*g]=a[0]+s; x[4*g+1]=a[1]+s; x[4*g+2]=a[2]+s; x[4*g+3]=s; } }
  static void ilayer(u8*x){ u8 y[16]; for(int g=0;g<4;g++){ u8*a=x+4*g; u8 s=a[3]; y[4*g]=a[0]-s; y[4*g+1]=a[1]-s; y[4*g+2]=a[2]-s; y[4*g+3]=s-y[4*g]-y[4*g+1]-y[4*g+2]; } for(int i=0;i<16;i++) x[sh()[i]]=y[i]; }
  void enc(const u8*in,u8*out){ u8 x[16]; memcpy(x,in,16); for(unsigned q=0;q<r;q++){ for(int i=0;i<16;i++){ u8 a=k[2*q][i],b=k[2*q+1][i]; if(xe(i)) x[i]=(u8)(el().e[x[i]^a]+b); else x[i]=el().l[(u8)(x[i]+a)]^b; } layer(x); layer(x); } for(int i=0;i<16;i++) out[i]=xe(i)?x[i]^k[2*r][i]:(u8)(x[i]+k[2*r][i]); }
  void dec(const u8*in,u8*out){ u8 x[16]; for(int i=0;i<16;i++) x[i]=xe(i)?in[i]^k[2*r][i]:(u8)(in[i]-k[2*r][i]); for(unsigned q=r;q-->0;){ ilayer(x); ilayer(x); for(int i=0;i<16;i++){ u8 a=k[2*q][i],b=k[2*q+1][i]; if(xe(i)) x[i]=el().l[(u8)(x[i]-b)]^a; else x[i]=el().e[(u8)(x[i]^b)]-a; } } memcpy(out,x,16); }
};

// ---------- SEED (RFC 4269) ----------
struct Seed: Block { unsigned r; std::vector<u32> k;
  static u32 G(u32 x){ u8 y[4]; for(int i=0;i<4;i++) y[i]=(i&1?SEED_S1:SEED_S0)[x>>(8*i)&255]; static const u8 m[4]={0xfc,0xf3,0xcf,0x3f}; u32 z=0; for(int j=0;j<4;j++){ u8 b=0; for(int i=0;i<4;i++) b^=y[i]&m[(i+j)&3]; z|=(u32)b<<(8*j); } return z; }
  Seed(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,16); u64 ab=ldb<u64>(&K[0]),cd=ldb<u64>(&K[8]); u32 kc=0x9E3779B9; for(unsigned i=0;i<r;i++){ k.push_back(G((u32)(ab>>32)+(u32)(cd>>32)-kc)); k.push_back(G((u32)ab-(u32)cd+kc)); if(i%2==0) ab=rr64(ab,8); else cd=rl64(cd,8); kc=rl32(kc,1); } }
  static void F(u32 c,u32 d,u32 k0,u32 k1,u32&o0,u32&o1){ c^=k0; d^=k1; d^=c; d=G(d); c+=d; c=G(c); d+=c; d=G(d); c+=d; o0=c; o1=d; }
  void run(const u8*in,u8*out,bool dd){ u32 l0=ldb<u32>(in),l1=ldb<u32>(in+4),r0=ldb<u32>(in+8),r1=ldb<u32>(in+12); for(unsigned i=0;i<r;i++){ unsigned q=dd?r-1-i:i; u32 a,b; F(r0,r1,k[2*q],k[2*q+1],a,b); a^=l0; b^=l1; l0=r0; l1=r1; r0=a; r1=b; } stb(r0,out); stb(r1,out+4); stb(l0,out+8); stb(l1,out+12); }
  void enc(const u8*in,u8*out){ run(in,out,false); } void dec(const u8*in,u8*out){ run(in,out,true); }
};

// ---------- Serpent ----------
static const u8 SERP[8][16]={{3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},{8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},{1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},{7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
struct Serpent: Block { unsigned r; std::vector<u32> k;
  static void S(u32*w,int n,bool inv){ u8 T[16]; for(int i=0;i<16;i++) if(inv) T[SERP[n][i]]=i; else T[i]=SERP[n][i]; u32 y[4]={0,0,0,0}; for(int b=0;b<32;b++){ int v=0; for(int i=0;i<4;i++) v|=(w[i]>>b&1)<<i; v=T[v]; for(int i=0;i<4;i++) y[i]|=(u32)(v>>i&1)<<b; } memcpy(w,y,16); }
  static void LT(u32*x){ x[0]=rl32(x[0],13); x[2]=rl32(x[2],3); x[1]^=x[0]^x[2]; x[3]^=x[2]^(x[0]<<3); x[1]=rl32(x[1],1); x[3]=rl32(x[3],7); x[0]^=x[1]^x[3]; x[2]^=x[3]^(x[1]<<7); x[0]=rl32(x[0],5); x[2]=rl32(x[2],22); }
  static void ILT(u32*x){ x[2]=rr32(x[2],22); x[0]=rr32(x[0],5); x[2]^=x[3]^(x[1]<<7); x[0]^=x[1]^x[3]; x[3]=rr32(x[3],7); x[1]=rr32(x[1],1); x[3]^=x[2]^(x[0]<<3); x[1]^=x[0]^x[2]; x[2]=rr32(x[2],3); x[0]=rr32(x[0],13); }
  Serpent(unsigned r,const Bytes&key):r(r){ Bytes K=key; if(K.size()<32){ K.push_back(1); K=zpad(K,32);} std::vector<u32> w(8); for(int i=0;i<8;i++) w[i]=ldl<u32>(&K[4*i]); for(unsigned i=0;i<4*(r+1);i++){ size_t n=w.size(); w.push_back(rl32(w[n-8]^w[n-5]^w[n-3]^w[n-1]^0x9E3779B9^i,11)); } for(unsigned i=0;i<=r;i++){ u32 t[4]; memcpy(t,&w[8+4*i],16); S(t,(3+8*r-i)%8,false); k.insert(k.end(),t,t+4); } }
  void x(u32*s,unsigned i){ for(int j=0;j<4;j++) s[j]^=k[4*i+j]; }
  void enc(const u8*in,u8*out){ u32 s[4]; for(int i=0;i<4;i++) s[i]=ldl<u32>(in+4*i); for(unsigned i=0;i<r;i++){ x(s,i); S(s,i%8,false); if(i+1<r) LT(s); } x(s,r); for(int i=0;i<4;i++) stl(s[i],out+4*i); }
  void dec(const u8*in,u8*out){ u32 s[4]; for(int i=0;i<4;i++) s[i]=ldl<u32>(in+4*i); x(s,r); for(unsigned i=r;i-->0;){ if(i+1<r) ILT(s); S(s,i%8,true); x(s,i); } for(int i=0;i<4;i++) stl(s[i],out+4*i); }
};

// ---------- SHACAL-2 ----------
const std::vector<u64>& sha_k64(); // hashes.cpp: first 160 fractional cube roots
struct Shacal2: Block { unsigned r; std::vector<u32> w;
  Shacal2(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,64); for(unsigned i=0;i<std::max(r,16u);i++){ if(i<16) w.push_back(ldb<u32>(&K[4*i])); else { u32 a=w[i-15],b=w[i-2]; w.push_back(w[i-16]+w[i-7]+(rr32(a,7)^rr32(a,18)^a>>3)+(rr32(b,17)^rr32(b,19)^b>>10)); } } for(unsigned i=0;i<w.size();i++) w[i]+=(u32)(sha_k64()[i]>>32); }
  void enc(const u8*in,u8*out){ u32 s[8]; for(int i=0;i<8;i++) s[i]=ldb<u32>(in+4*i); for(unsigned i=0;i<r;i++){ u32 e=s[4],a=s[0]; u32 t1=s[7]+(rr32(e,6)^rr32(e,11)^rr32(e,25))+((e&s[5])^(~e&s[6]))+w[i],t2=(rr32(a,2)^rr32(a,13)^rr32(a,22))+((a&s[1])^(a&s[2])^(s[1]&s[2])); for(int j=7;j>0;j--) s[j]=s[j-1]; s[4]+=t1; s[0]=t1+t2; } for(int i=0;i<8;i++) stb(s[i],out+4*i); }
  void dec(const u8*in,u8*out){ u32 s[8]; for(int i=0;i<8;i++) s[i]=ldb<u32>(in+4*i); for(unsigned i=r;i-->0;){ u32 top=s[0]; u32 n[8]; for(int j=0;j<7;j++) n[j]=s[j+1]; u32 a=n[0]; u32 t2=(rr32(a,2)^rr32(a,13)^rr32(a,22))+((a&n[1])^(a&n[2])^(n[1]&n[2])); u32 t1=top-t2; n[3]=s[4]-t1; u32 e=n[4]; n[7]=t1-(rr32(e,6)^rr32(e,11)^rr32(e,25))-((e&n[5])^(~e&n[6]))-w[i]; memcpy(s,n,32); } for(int i=0;i<8;i++) stb(s[i],out+4*i); }
};

// ---------- Simon / Speck ----------
template<class T> T rolT(T x,unsigned n){ const unsigned w=8*sizeof(T); n%=w; return n?(T)((T)(x<<n)|(T)(x>>(w-n))):x; }
template<class T> T rorT(T x,unsigned n){ return rolT<T>(x,8*sizeof(T)-n%(8*sizeof(T))); }
template<class T> struct Simon: Block { unsigned r; std::vector<T> k;
  Simon(unsigned r,const Bytes&key,unsigned m,u64 z):r(r){ Bytes K=zpad(key,m*sizeof(T)); for(unsigned i=0;i<m;i++) k.push_back(ldl<T>(&K[i*sizeof(T)])); const T c=(T)~(T)3; for(unsigned i=m;i<r;i++){ T t=rorT<T>(k[i-1],3); if(m==4) t^=k[i-3]; t^=rorT<T>(t,1); k.push_back((T)(k[i-m]^t^c^(T)(z>>((i-m)%62)&1))); } }
  static T f(T x){ return (T)((rolT<T>(x,1)&rolT<T>(x,8))^rolT<T>(x,2)); }
  void enc(const u8*in,u8*out){ T y=ldl<T>(in),x=ldl<T>(in+sizeof(T)); for(unsigned i=0;i<r;i++){ T t=x; x=(T)(y^f(x)^k[i]); y=t; } stl(y,out); stl(x,out+sizeof(T)); }
  void dec(const u8*in,u8*out){ T y=ldl<T>(in),x=ldl<T>(in+sizeof(T)); for(unsigned i=r;i-->0;){ T t=y; y=(T)(x^f(y)^k[i]); x=t; } stl(y,out); stl(x,out+sizeof(T)); }
};
template<class T> struct Speck: Block { unsigned r,al,be; std::vector<T> k;
  Speck(unsigned r,const Bytes&key):r(r){ al=sizeof(T)==2?7:8; be=sizeof(T)==2?2:3; unsigned m=std::max<unsigned>(2,(key.size()+sizeof(T)-1)/sizeof(T)); Bytes K=zpad(key,m*sizeof(T)); std::vector<T> l; k.push_back(ldl<T>(&K[0])); for(unsigned i=1;i<m;i++) l.push_back(ldl<T>(&K[i*sizeof(T)])); for(unsigned i=0;i+1<r;i++){ T nl=(T)((k[i]+rorT<T>(l[i],al))^(T)i); l.push_back(nl); k.push_back((T)(rolT<T>(k[i],be)^nl)); } }
  void enc(const u8*in,u8*out){ T y=ldl<T>(in),x=ldl<T>(in+sizeof(T)); for(unsigned i=0;i<r;i++){ x=(T)((rorT<T>(x,al)+y)^k[i]); y=(T)(rolT<T>(y,be)^x); } stl(y,out); stl(x,out+sizeof(T)); }
  void dec(const u8*in,u8*out){ T y=ldl<T>(in),x=ldl<T>(in+sizeof(T)); for(unsigned i=r;i-->0;){ y=rorT<T>((T)(y^x),be); x=rolT<T>((T)((x^k[i])-y),al); } stl(y,out); stl(x,out+sizeof(T)); }
};

// ---------- Skipjack (word and key byte order of the library: all reversed) ----------
struct Skipjack: Block { u8 cv[10];
  Skipjack(unsigned,const Bytes&key){ Bytes K=zpad(key,10); for(int i=0;i<10;i++) cv[i]=K[9-i]; }
  u16 G(u16 w,unsigned k){ u8 g1=w>>8,g2=w&255; u8 g3=SKIP_F[g2^cv[(4*k)%10]]^g1,g4=SKIP_F[g3^cv[(4*k+1)%10]]^g2,g5=SKIP_F[g4^cv[(4*k+2)%10]]^g3,g6=SKIP_F[g5^cv[(4*k+3)%10]]^g4; return g5<<8|g6; }
  u16 GI(u16 w,unsigned k){ u8 g5=w>>8,g6=w&255; u8 g4=SKIP_F[g5^cv[(4*k+3)%10]]^g6,g3=SKIP_F[g4^cv[(4*k+2)%10]]^g5,g2=SKIP_F[g3^cv[(4*k+1)%10]]^g4,g1=SKIP_F[g2^cv[(4*k)%10]]^g3; return g1<<8|g2; }
  void enc(const u8*in,u8*out){ u16 w[4]; for(int i=0;i<4;i++) w[i]=ldl<u16>(in+6-2*i); for(unsigned k=0;k<32;k++){ u16 n[4]; if((k/8)%2==0){ u16 g=G(w[0],k); n[0]=g^w[3]^(k+1); n[1]=g; n[2]=w[1]; n[3]=w[2]; } else { n[0]=w[3]; n[1]=G(w[0],k); n[2]=w[0]^w[1]^(k+1); n[3]=w[2]; } memcpy(w,n,8); } for(int i=0;i<4;i++) stl(w[i],out+6-2*i); }
  void dec(const u8*in,u8*out){ u16 w[4]; for(int i=0;i<4;i++) w[i]=ldl<u16>(in+6-2*i); for(unsigned k=32;k-->0;){ u16 n[4]; if((k/8)%2==0){ n[0]=GI(w[1],k); n[1]=w[2]; n[2]=w[3]; n[3]=w[0]^w[1]^(k+1); } else { n[0]=GI(w[1],k); n[1]=n[0]^w[2]^(k+1); n[2]=w[3]; n[3]=w[0]; } memcpy(w,n,8); } for(int i=0;i<4;i++) stl(w[i],out+6-2*i); }
};

// ---------- SM4 ----------
struct Sm4: Block { unsigned r; u32 rk[32];
  static u32 tau(u32 x){ u32 y=0; for(int i=0;i<4;i++) y|=(u32)SM4_S[x>>(8*i)&255]<<(8*i); return y; }
  Sm4(unsigned r,const Bytes&key):r(r){ static const u32 FK[4]={0xA3B1BAC6,0x56AA3350,0x677D9197,0xB27022DC}; Bytes K=zpad(key,16); u32 k[36]; for(int i=0;i<4;i++) k[i]=ldb<u32>(&K[4*i])^FK[i]; for(unsigned i=0;i<r;i++){ u32 ck=0; for(int j=0;j<4;j++) ck=ck<<8|((4*i+j)*7&255); u32 t=tau(k[i+1]^k[i+2]^k[i+3]^ck); rk[i]=k[i+4]=k[i]^t^rl32(t,13)^rl32(t,23); } }
  void run(const u8*in,u8*out,bool d){ u32 x[36]; for(int i=0;i<4;i++) x[i]=ldb<u32>(in+4*i); for(unsigned i=0;i<r;i++){ u32 t=tau(x[i+1]^x[i+2]^x[i+3]^rk[d?r-1-i:i]); x[i+4]=x[i]^t^rl32(t,2)^rl32(t,10)^rl32(t,18)^rl32(t,24); } for(int i=0;i<4;i++) stb(x[r+3-i],out+4*i); }
  void enc(const u8*in,u8*out){ run(in,out,false); } void dec(const u8*in,u8*out){ run(in,out,true); }
};

// ---------- TEA / XTEA ----------
struct Tea: Block { unsigned r; u32 k[4]; Tea(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,16); for(int i=0;i<4;i++) k[i]=ldb<u32>(&K[4*i]); }
  void enc(const u8*in,u8*out){ u32 y=ldb<u32>(in),z=ldb<u32>(in+4),s=0; for(unsigned i=0;i<r;i++){ s+=0x9E3779B9; y+=((z<<4)+k[0])^(z+s)^((z>>5)+k[1]); z+=((y<<4)+k[2])^(y+s)^((y>>5)+k[3]); } stb(y,out); stb(z,out+4); }
  void dec(const u8*in,u8*out){ u32 y=ldb<u32>(in),z=ldb<u32>(in+4),s=0x9E3779B9u*r; for(unsigned i=0;i<r;i++){ z-=((y<<4)+k[2])^(y+s)^((y>>5)+k[3]); y-=((z<<4)+k[0])^(z+s)^((z>>5)+k[1]); s-=0x9E3779B9; } stb(y,out); stb(z,out+4); }
};
struct Xtea: Block { unsigned r; std::vector<u32> rk; // r counts half cycles
  Xtea(unsigned r,const Bytes&key):r(r){ unsigned n=(key.size()+3)/4; Bytes K=zpad(key,4*n); u32 s=0; for(unsigned i=0;i<r;i++){ if(i%2==0) rk.push_back(s+ldb<u32>(&K[4*(s%n)])); else { s+=0x9E3779B9; rk.push_back(s+ldb<u32>(&K[4*((s>>11)%n)])); } } }
  static u32 f(u32 x){ return ((x<<4)^(x>>5))+x; }
  void enc(const u8*in,u8*out){ u32 v[2]={ldb<u32>(in),ldb<u32>(in+4)}; for(unsigned i=0;i<r;i++) v[i%2]+=f(v[1-i%2])^rk[i]; stb(v[0],out); stb(v[1],out+4); }
  void dec(const u8*in,u8*out){ u32 v[2]={ldb<u32>(in),ldb<u32>(in+4)}; for(unsigned i=r;i-->0;) v[i%2]-=f(v[1-i%2])^rk[i]; stb(v[0],out); stb(v[1],out+4); }
};

// ---------- 3-Way (Daemen's reference code) ----------
struct ThreeWay: Block { unsigned r; u32 k[3];
  ThreeWay(unsigned r,const Bytes&key):r(r){ Bytes K=zpad(key,12); for(int i=0;i<3;i++) k[i]=ldb<u32>(&K[4*i]); }
  static void rc(u32 s,u32*t,unsigned n){ for(unsigned i=0;i<=n;i++){ t[i]=s; s<<=1; if(s&0x10000) s^=0x11011; } }
  static void mu(u32*a){ u32 b[3]={0,0,0}; for(int i=0;i<32;i++){ for(int j=0;j<3;j++) b[j]=b[j]<<1|(a[2-j]>>i&1); } memcpy(a,b,12); }
  static void gamma(u32*a){ u32 b[3]; for(int i=0;i<3;i++) b[i]=a[i]^(a[(i+1)%3]|~a[(i+2)%3]); memcpy(a,b,12); }
  static void theta(u32*a){ u32 b[3]; b[0]=a[0]^(a[0]>>16)^(a[1]<<16)^(a[1]>>16)^(a[2]<<16)^(a[1]>>24)^(a[2]<<8)^(a[2]>>8)^(a[0]<<24)^(a[2]>>16)^(a[0]<<16)^(a[2]>>24)^(a[0]<<8);
    b[1]=a[1]^(a[1]>>16)^(a[2]<<16)^(a[2]>>16)^(a[0]<<16)^(a[2]>>24)^(a[0]<<8)^(a[0]>>8)^(a[1]<<24)^(a[0]>>16)^(a[1]<<16)^(a[0]>>24)^(a[1]<<8);
    b[2]=a[2]^(a[2]>>16)^(a[0]<<16)^(a[0]>>16)^(a[1]<<16)^(a[0]>>24)^(a[1]<<8)^(a[1]>>8)^(a[2]<<24)^(a[1]>>16)^(a[2]<<16)^(a[1]>>24)^(a[2]<<8); memcpy(a,b,12); }
  static void pi1(u32*a){ a[0]=rr32(a[0],10); a[2]=rl32(a[2],1); } static void pi2(u32*a){ a[0]=rl32(a[0],1); a[2]=rr32(a[2],10); }
  static void rho(u32*a){ theta(a); pi1(a); gamma(a); pi2(a); }
  void enc(const u8*in,u8*out){ u32 a[3],c[64]; for(int i=0;i<3;i++) a[i]=ldb<u32>(in+4*i); rc(0x0B0B,c,r); for(unsigned i=0;i<r;i++){ a[0]^=k[0]^c[i]<<16; a[1]^=k[1]; a[2]^=k[2]^c[i]; rho(a); } a[0]^=k[0]^c[r]<<16; a[1]^=k[1]; a[2]^=k[2]^c[r]; theta(a); for(int i=0;i<3;i++) stb(a[i],out+4*i); }
  // inverse of encryption, step by step
  static void itheta(u32*a){ mu(a); theta(a); mu(a); }
  static void igamma(u32*a){ mu(a); gamma(a); mu(a); }
  void dec(const u8*in,u8*out){ u32 a[3],c[64]; for(int i=0;i<3;i++) a[i]=ldb<u32>(in+4*i); rc(0x0B0B,c,r); itheta(a); a[0]^=k[0]^c[r]<<16; a[1]^=k[1]; a[2]^=k[2]^c[r]; for(unsigned i=r;i-->0;){ a[0]=rr32(a[0],1); a[2]=rl32(a[2],10); igamma(a); a[0]=rl32(a[0],10); a[2]=rr32(a[2],1); itheta(a); a[0]^=k[0]^c[i]<<16; a[1]^=k[1]; a[2]^=k[2]^c[i]; } for(int i=0;i<3;i++) stb(a[i],out+4*i); }
};

// ---------- Threefish (Skein 1.3) ----------
struct Threefish: Block { unsigned nw,r; std::vector<u64> k; u64 t[3];
  Threefish(unsigned nw,unsigned r,const Bytes&key):nw(nw),r(r){ Bytes K=zpad(key,8*nw); u64 x=0x1BD11BDAA9FC1A22ULL; for(unsigned i=0;i<nw;i++){ k.push_back(ldl<u64>(&K[8*i])); x^=k[i]; } k.push_back(x); t[0]=t[1]=t[2]=0; }
  void tweak(const Bytes&tw){ Bytes T=zpad(tw,16); t[0]=ldl<u64>(&T[0]); t[1]=ldl<u64>(&T[8]); t[2]=t[0]^t[1]; }
  static const u8* perm(unsigned nw){ static const u8 p4[]={0,3,2,1},p8[]={2,1,4,7,6,5,0,3},p16[]={0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1}; return nw==4?p4:nw==8?p8:p16; }
  static unsigned R(unsigned nw,unsigned d,unsigned j){ static const u8 a[8][2]={{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}}; static const u8 b[8][4]={{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
    static const u8 c[8][8]={{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}}; return nw==4?a[d][j]:nw==8?b[d][j]:c[d][j]; }
  u64 sub(unsigned s,unsigned i){ u64 v=k[(s+i)%(nw+1)]; if(i==nw-3) v+=t[s%3]; if(i==nw-2) v+=t[(s+1)%3]; if(i==nw-1) v+=s; return v; }
  void enc(const u8*in,u8*out){ u64 v[16],f[16]; for(unsigned i=0;i<nw;i++) v[i]=ldl<u64>(in+8*i); for(unsigned d=0;d<r;d++){ if(d%4==0) for(unsigned i=0;i<nw;i++) v[i]+=sub(d/4,i); for(unsigned j=0;j<nw/2;j++){ f[2*j]=v[2*j]+v[2*j+1]; f[2*j+1]=rl64(v[2*j+1],R(nw,d%8,j))^f[2*j]; } for(unsigned i=0;i<nw;i++) v[i]=f[perm(nw)[i]]; } for(unsigned i=0;i<nw;i++) stl(v[i]+sub(r/4,i),out+8*i); }
  void dec(const u8*in,u8*out){ u64 v[16],f[16]; for(unsigned i=0;i<nw;i++) v[i]=ldl<u64>(in+8*i)-sub(r/4,i); for(unsigned d=r;d-->0;){ for(unsigned i=0;i<nw;i++) f[perm(nw)[i]]=v[i]; for(unsigned j=0;j<nw/2;j++){ v[2*j+1]=rr64(f[2*j+1]^f[2*j],R(nw,d%8,j)); v[2*j]=f[2*j]-v[2*j+1]; } if(d%4==0) for(unsigned i=0;i<nw;i++) v[i]-=sub(d/4,i); } for(unsigned i=0;i<nw;i++) stl(v[i],out+8*i); }
};

// ---------- Twofish ----------
struct TwoQ { u8 q[2][256]; TwoQ(){ static const u8 T[2][4][16]={{{8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4},{14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13},{11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1},{13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10}},{{2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5},{1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8},{4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15},{11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10}}};
  for(int n=0;n<2;n++) for(int x=0;x<256;x++){ int a=x>>4,b=x&15; for(int s=0;s<2;s++){ int a1=a^b,b1=(a^((b>>1)|(b<<3&15))^(8*a))&15; a=T[n][2*s][a1]; b=T[n][2*s+1][b1]; } q[n][x]=b<<4|a; } } };
struct Twofish: Block { unsigned r,n; std::vector<u32> K; u32 S[4]; 
  static const TwoQ& q(){ static TwoQ t; return t; }
  static u32 mds(const u8*y){ static const u8 M[4][4]={{1,0xEF,0x5B,0x5B},{0x5B,0xEF,0xEF,1},{0xEF,0x5B,1,0xEF},{0xEF,1,0xEF,0x5B}}; static u8 t5[256],te[256]; static bool init=false; if(!init){ for(int i=0;i<256;i++){ t5[i]=gmul(i,0x5B,0x169); te[i]=gmul(i,0xEF,0x169); } init=true; } u32 z=0; for(int i=0;i<4;i++){ u8 v=0; for(int j=0;j<4;j++) v^=M[i][j]==1?y[j]:M[i][j]==0x5B?t5[y[j]]:te[y[j]]; z|=(u32)v<<(8*i); } return z; }
  static u32 h(u32 X,const u32*L,unsigned k){ static const u8 Q[5][4]={{1,0,1,0},{0,0,1,1},{0,1,0,1},{1,1,0,0},{1,0,0,1}}; u8 y[4]; for(int j=0;j<4;j++) y[j]=X>>(8*j); for(unsigned i=k;i>0;i--) for(int j=0;j<4;j++) y[j]=q().q[Q[i][j]][y[j]]^(u8)(L[i-1]>>(8*j)); for(int j=0;j<4;j++) y[j]=q().q[Q[0][j]][y[j]]; return mds(y); }
  Twofish(unsigned r,const Bytes&key):r(r){ n=(key.size()+7)/8; Bytes k=zpad(key,8*n); u32 Me[4],Mo[4]; for(unsigned i=0;i<n;i++){ Me[i]=ldl<u32>(&k[8*i]); Mo[i]=ldl<u32>(&k[8*i+4]); }
    static const u8 RS[4][8]={{1,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E},{0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5},{2,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19},{0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,3}};
    for(unsigned i=0;i<n;i++){ u32 s=0; for(int a=0;a<4;a++){ u8 v=0; for(int b=0;b<8;b++) v^=gmul(RS[a][b],k[8*i+b],0x14D); s|=(u32)v<<(8*a); } S[n-1-i]=s; }
    for(unsigned i=0;i<r+4;i++){ u32 A=h(2*i*0x01010101u,Me,n),B=rl32(h((2*i+1)*0x01010101u,Mo,n),8); K.push_back(A+B); K.push_back(rl32(A+2*B,9)); } }
  void enc(const u8*in,u8*out){ u32 R[4]; for(int i=0;i<4;i++) R[i]=ldl<u32>(in+4*i)^K[i]; for(unsigned i=0;i<r;i++){ u32 a=h(R[0],S,n),b=h(rl32(R[1],8),S,n); u32 f0=a+b+K[2*i+8],f1=a+2*b+K[2*i+9]; u32 x=rr32(R[2]^f0,1),y=rl32(R[3],1)^f1; R[2]=R[0]; R[3]=R[1]; R[0]=x; R[1]=y; } for(int i=0;i<4;i++) stl(R[(i+2)&3]^K[4+i],out+4*i); }
  void dec(const u8*in,u8*out){ u32 R[4]; for(int i=0;i<4;i++) R[(i+2)&3]=ldl<u32>(in+4*i)^K[4+i]; for(unsigned i=r;i-->0;){ u32 a=h(R[2],S,n),b=h(rl32(R[3],8),S,n); u32 f0=a+b+K[2*i+8],f1=a+2*b+K[2*i+9]; u32 x=rl32(R[0],1)^f0,y=rr32(R[1]^f1,1); R[0]=R[2]; R[1]=R[3]; R[2]=x; R[3]=y; } for(int i=0;i<4;i++) stl(R[i]^K[i],out+4*i); }
};

// ---------- registry ----------
// many rounds: a and further values, multiples of st, where counters of 7, 8, 9 and 10 bits wrap
static std::vector<unsigned> more(std::vector<unsigned> v,unsigned st=1){ for(unsigned b:{128u,256u,512u,1024u}) for(unsigned k:{b-st,b,b+st}) if(k>v.back()) v.push_back(k); return v; }
static std::vector<unsigned> range(unsigned a,unsigned b,unsigned s=1){ std::vector<unsigned> v; for(unsigned i=a;i<=b;i+=s) v.push_back(i); return v; }
template<class C> static BlockSpec mk(const char*n,unsigned bs,unsigned mk_,unsigned def,std::vector<unsigned> rr,unsigned mt=0){ return {n,bs,mk_,mt,[def](unsigned r,const Bytes&k){ return BP(new C(r?r:def,k)); },[rr](unsigned){ return rr; }}; }
static std::vector<BlockSpec> build(){
  std::vector<BlockSpec> v; typedef const Bytes& K;
  v.push_back(mk<ThreeWay>("3way",12,12,11,range(1,11)));
  v.push_back({"anubis",16,40,0,[](unsigned r,K k){ unsigned n=(k.size()+3)/4; return BP(new Anubis(r?r:std::max(12u,8+n),k)); },[](unsigned){return range(1,64);}});
  v.push_back({"aria",16,32,0,[](unsigned r,K k){ unsigned n=(k.size()+3)/4,d=8+n; if(d&1) d++; return BP(new Aria(r?r:std::max(12u,d),k)); },[](unsigned){return more(range(2,18,2),2);}});
  v.push_back(mk<Blowfish>("blowfish",8,56,16,range(1,34)));
  v.push_back(mk<Camellia>("camellia",16,32,0,{}));
  v.push_back(mk<Cast5>("cast5",8,16,0,{}));
  v.push_back(mk<Crax>("crax_s",8,16,10,more(range(1,40))));
  v.push_back(mk<Des>("des",8,24,0,{}));
  v.push_back({"gost_cbr",8,32,0,[](unsigned r,K k){return gost(GOST_CBR,r,k);},[](unsigned l){ unsigned n=(l+3)/4; return more(range(2*n,64,2),2); }});
  v.push_back({"gost_r34_12_2015",8,32,0,[](unsigned r,K k){return gost(GOST_R34,r,k);},[](unsigned l){ unsigned n=(l+3)/4; return more(range(2*n,64,2),2); }});
  v.push_back(mk<Idea>("idea",8,16,8,more(range(1,40))));
  v.push_back(mk<Khazad>("khazad",8,16,8,range(1,8)));
  v.push_back({"lea",16,32,0,[](unsigned r,K k){ return BP(new Lea(r?r:k.size()<=16?24:k.size()<=24?28:32,k)); },[](unsigned){return more(range(4,64,4),4);}});
  v.push_back(mk<Noekeon>("noekeon",16,16,16,range(1,33)));
  v.push_back(mk<Rc2>("rc2",8,128,0,{}));
  v.push_back({"rc5",8,255,0,[](unsigned r,K k){return BP(new Rc5(r?r:12,k));},[](unsigned){ return more(range(1,100)); }});
  v.push_back({"rc6",16,255,0,[](unsigned r,K k){return BP(new Rc6(r?r:20,k));},[](unsigned){ return more(range(1,100)); }});
  v.push_back(mk<Rectangle>("rectangle",8,16,25,range(1,25)));
  v.push_back({"rijndael128",16,32,0,[](unsigned r,K k){ unsigned n=(k.size()+3)/4; return BP(new Rijndael(4,r?r:std::max(10u,6+n),k)); },[](unsigned l){ unsigned n=(l+3)/4; return more(range(n>4?(n+3)/4-1:1,40)); }});
  v.push_back({"rijndael256",32,32,0,[](unsigned r,K k){ unsigned n=(k.size()+3)/4; return BP(new Rijndael(8,r?r:std::max(14u,6+n),k)); },[](unsigned){ return more(range(1,40)); }});
  v.push_back({"safer",8,16,0,[](unsigned r,K k){ return BP(new Safer(r?r:k.size()>8?10:6,k,false)); },[](unsigned){return more(range(1,20));}});
  v.push_back({"safer_sk",8,16,0,[](unsigned r,K k){ return BP(new Safer(r?r:k.size()>8?10:6,k,true)); },[](unsigned){return more(range(1,20));}});
  v.push_back({"saferpp",16,32,0,[](unsigned r,K k){ return BP(new SaferPP(r?r:k.size()>16?10:7,k)); },[](unsigned){return more(range(1,20));}});
  v.push_back(mk<Seed>("seed",16,16,16,more(range(1,40))));
  v.push_back(mk<Serpent>("serpent",16,32,32,more(range(8,64,8),8)));
  v.push_back(mk<Shacal2>("shacal2",32,64,64,range(16,120,8)));
  v.push_back({"simon32",4,8,0,[](unsigned r,K k){ return BP(new Simon<u16>(r?r:32,k,4,0x19C3522FB386A45FULL)); },[](unsigned){return more(range(4,80));}});
  v.push_back({"simon64",8,16,0,[](unsigned r,K k){ unsigned w=(k.size()+3)/4,m=std::max(3u,w); return BP(new Simon<u32>(r?r:36+2*w,k,m,m==3?0x3369F885192C0EF5ULL:0x3C2CE51207A635DBULL)); },[](unsigned l){return more(range(std::max(3u,(l+3)/4),100));}});
  v.push_back({"simon128",16,32,0,[](unsigned r,K k){ unsigned w=(k.size()+7)/8,m=std::max(2u,w); return BP(new Simon<u64>(r?r:m==2?68:m==3?69:72,k,m,m==2?0x3369F885192C0EF5ULL:m==3?0x3C2CE51207A635DBULL:0x3DC94C3A046D678BULL)); },[](unsigned l){return more(range(std::max(2u,(l+7)/8),150));}});
  v.push_back({"skipjack",8,10,0,[](unsigned r,K k){ return BP(new Skipjack(r,k)); },[](unsigned){return range(32,32);}});
  v.push_back(mk<Sm4>("sm4",16,16,32,range(4,32,4)));
  v.push_back({"speck32",4,8,0,[](unsigned r,K k){ return BP(new Speck<u16>(r?r:22,k)); },[](unsigned){return more(range(1,60));}});
  v.push_back({"speck64",8,16,0,[](unsigned r,K k){ return BP(new Speck<u32>(r?r:23+(k.size()+3)/4,k)); },[](unsigned){return more(range(1,60));}});
  v.push_back({"speck128",16,32,0,[](unsigned r,K k){ return BP(new Speck<u64>(r?r:30+(k.size()+7)/8,k)); },[](unsigned){return more(range(1,60));}});
  v.push_back(mk<Tea>("tea",8,16,32,more(range(1,100))));
  for(unsigned nw:{4u,8u,16u}) v.push_back({"threefish"+std::to_string(nw*64),nw*8,nw*8,16,[nw](unsigned r,K k){ return BP(new Threefish(nw,r?r:nw==16?80:72,k)); },[](unsigned){return more(range(8,128,8),8);}});
  v.push_back(mk<Trax<4>>("trax_l",32,32,17,more(range(1,40)),16));
  v.push_back(mk<Trax<2>>("trax_m",16,16,14,more(range(1,40)),8));
  v.push_back(mk<Twofish>("twofish",16,32,16,range(2,124,2)));
  v.push_back(mk<Xtea>("xtea",8,16,64,more(range(1,130))));
  return v; }
const std::vector<BlockSpec>& blocks(){ static std::vector<BlockSpec> v=build(); return v; }
const BlockSpec& block(const std::string&n){ for(auto&b:blocks()) if(b.name==n) return b; throw std::runtime_error("no block "+n); }
}
