// C21: load/store and rotation primitives in every configuration
#include "engine.h"
extern "C" {
#include "prim.h"
#define C(n) extern const struct prim prim_##n;
#include "prim_cfgs.inc"
#undef C
}
// the same helpers compiled for another processor and run on the emulated one: VP_VARIANTS lists name=image
#include "emu.h"
#include <memory>
#include <utility>
static const int MAXG=4; static std::unique_ptr<Guest> guest[MAXG];
template<class T> Guest::Arg val(T v){ return sizeof(T)==8?Guest::W(v):Guest::U((unsigned)v); }
static uint32_t target(Guest&g,unsigned idx){ uint32_t t=g.sym("prim_guest"); unsigned p=g.w64?8:4; return (uint32_t)g.word(t+2*p+idx*p); }
template<class F> auto on(F f)->decltype(f()){ try { return f(); } catch(std::exception&e){ fail("%s",e.what()); } }
template<class T> T res(Guest&g,uint32_t f,const std::vector<Guest::Arg>&a){ T r=sizeof(T)==8?(T)g.call64(f,a):(T)g.call(f,a); g.guard_check(); return r; }
template<class T> uint32_t putw(Guest&g,const T*s,size_t n){ Bytes b(n*sizeof(T)); for(size_t i=0;i<n;i++) for(unsigned k=0;k<sizeof(T);k++) b[i*sizeof(T)+k]=(uint8_t)(s[i]>>8*(g.be?sizeof(T)-1-k:k)); return g.put(b.data(),b.size(),0); }
template<class T> void getw(Guest&g,uint32_t a,T*d,size_t n){ for(size_t i=0;i<n;i++){ T v=0; for(unsigned k=0;k<sizeof(T);k++) v|=(T)((T)g.mem[a+i*sizeof(T)+k]<<8*(g.be?sizeof(T)-1-k:k)); d[i]=v; } }
#define GU Guest&g=*guest[G]; Guest::Scope sc(g); uint32_t f=target(g,I)
template<int G,unsigned I,class T> T t_l(const void*p){ return on([&]{ GU; return res<T>(g,f,{Guest::P(g.put(p,sizeof(T),(uintptr_t)p&15))}); }); }
template<int G,unsigned I,class T> void t_s(T v,void*p){ on([&]{ GU; uint32_t a=g.put(p,sizeof(T),(uintptr_t)p&15); res<int>(g,f,{val(v),Guest::P(a)}); memcpy(p,g.mem+a,sizeof(T)); return 0; }); }
template<int G,unsigned I,class T> void t_la(const void*s,T*d,unsigned n){ on([&]{ GU; size_t w=(n+sizeof(T)-1)/sizeof(T); uint32_t a=g.put(s,n,(uintptr_t)s&15),b=putw(g,d,w); res<int>(g,f,{Guest::P(a),Guest::P(b),Guest::U(n)}); getw(g,b,d,w); if(n&&memcmp(g.mem+a,s,n)) fail("source altered"); return 0; }); }
template<int G,unsigned I,class T> void t_sa(const T*s,unsigned o,void*d,unsigned n){ on([&]{ GU; size_t w=n?(o+n+sizeof(T)-1)/sizeof(T):0; uint32_t a=putw(g,s,w),b=g.put(d,n,(uintptr_t)d&15); res<int>(g,f,{Guest::P(a),Guest::U(o),Guest::P(b),Guest::U(n)}); if(n) memcpy(d,g.mem+b,n); return 0; }); }
template<int G,unsigned I,class T> T t_r(T v,unsigned r){ return on([&]{ GU; return res<T>(g,f,{val(v),Guest::U(r)}); }); }
template<int G,unsigned I,class T> T t_f(T v){ return on([&]{ GU; return res<T>(g,f,{val(v)}); }); }
template<int G,unsigned I,class T,size_t N,size_t...K> void fixed(T(*(&f)[2][N])(T),std::index_sequence<K...>){ ((f[0][K]=K?t_f<G,I+K,T>:nullptr),...); ((f[1][K]=K?t_f<G,I+N+K,T>:nullptr),...); }
template<int G> const prim* bindg(const std::string&nm){ static prim p; static std::string n; n=nm; p.name=n.c_str(); p.big=0;
  p.l16[0]=t_l<G,0,uint16_t>; p.l16[1]=t_l<G,1,uint16_t>; p.l32[0]=t_l<G,2,uint32_t>; p.l32[1]=t_l<G,3,uint32_t>; p.l64[0]=t_l<G,4,uint64_t>; p.l64[1]=t_l<G,5,uint64_t>;
  p.s16[0]=t_s<G,6,uint16_t>; p.s16[1]=t_s<G,7,uint16_t>; p.s32[0]=t_s<G,8,uint32_t>; p.s32[1]=t_s<G,9,uint32_t>; p.s64[0]=t_s<G,10,uint64_t>; p.s64[1]=t_s<G,11,uint64_t>;
  p.la16[0]=t_la<G,12,uint16_t>; p.la16[1]=t_la<G,13,uint16_t>; p.la32[0]=t_la<G,14,uint32_t>; p.la32[1]=t_la<G,15,uint32_t>; p.la64[0]=t_la<G,16,uint64_t>; p.la64[1]=t_la<G,17,uint64_t>;
  p.sa16[0]=t_sa<G,18,uint16_t>; p.sa16[1]=t_sa<G,19,uint16_t>; p.sa32[0]=t_sa<G,20,uint32_t>; p.sa32[1]=t_sa<G,21,uint32_t>; p.sa64[0]=t_sa<G,22,uint64_t>; p.sa64[1]=t_sa<G,23,uint64_t>;
  p.r8[0]=t_r<G,24,uint8_t>; p.r8[1]=t_r<G,25,uint8_t>; p.r16[0]=t_r<G,26,uint16_t>; p.r16[1]=t_r<G,27,uint16_t>; p.r32[0]=t_r<G,28,uint32_t>; p.r32[1]=t_r<G,29,uint32_t>; p.r64[0]=t_r<G,30,uint64_t>; p.r64[1]=t_r<G,31,uint64_t>;
  fixed<G,32>(p.f8,std::make_index_sequence<8>()); fixed<G,48>(p.f16,std::make_index_sequence<16>()); fixed<G,80>(p.f32,std::make_index_sequence<32>()); fixed<G,144>(p.f64,std::make_index_sequence<64>()); return &p; }
#define C(n) &prim_##n,
static std::vector<const prim*> all_cfgs(){ std::vector<const prim*> v={
#include "prim_cfgs.inc"
}; const prim*(*b[MAXG])(const std::string&)={bindg<0>,bindg<1>,bindg<2>,bindg<3>}; const char*e=getenv("VP_VARIANTS"); std::string s=e?e:""; size_t i=0; for(int k=0;k<MAXG&&i<s.size();k++){ size_t j=s.find(';',i); if(j==std::string::npos) j=s.size(); std::string x=s.substr(i,j-i); i=j+1; size_t q=x.find('='); try { guest[k].reset(new Guest(x.substr(q+1).c_str())); } catch(std::exception&e){ fprintf(stderr,"%s\n",e.what()); _Exit(9); } v.push_back(b[k](x.substr(0,q))); } return v; }
static const std::vector<const prim*> cfgs=all_cfgs();
#undef C
static const unsigned NC=cfgs.size();
template<class T> T def_ld(const uint8_t*p,bool big){ T r=0; for(unsigned i=0;i<sizeof(T);i++) r|=(T)((T)p[i]<<(8*(big?sizeof(T)-1-i:i))); return r; }
template<class T> uint8_t def_byte(const std::vector<T>&w,size_t i,bool big){ unsigned k=i%sizeof(T); return (uint8_t)(w[i/sizeof(T)]>>(8*(big?sizeof(T)-1-k:k))); }
template<class T> T def_rol(T x,unsigned r,bool right){ const unsigned n=8*sizeof(T); r%=n; if(right) r=(n-r)%n; T y=0; for(unsigned i=0;i<n;i++) if(x>>i&1) y|=(T)((T)1<<((i+r)%n)); return y; }
template<class T> struct Ops { T(*const*l)(const void*); void(*const*s)(T,void*); void(*const*la)(const void*,T*,unsigned); void(*const*sa)(const T*,unsigned,void*,unsigned); T(*const*r)(T,unsigned); };
// on a little-endian host, a helper specialised for big-endian hosts (plain copy) may be in native order
template<class T> void loadstore(Src&s,Ctx&x,const prim&c,const Ops<T>&o){ const unsigned W=sizeof(T); bool big=s.draw(2); bool native=c.big&&big; const char*E=big?"B":"L"; unsigned op=s.draw(4);
  if(op==0){ Bytes b=s.bytes(W); Guarded g(b,s.draw(16)); x.say("LOAD%u%s(%s)",8*W,E,hex(b).c_str()); T v=o.l[big](g.p()); if(g.get()!=b) fail("source altered"); if(v!=def_ld<T>(b.data(),big)&&!(native&&v==def_ld<T>(b.data(),false))) fail("got %llx",(unsigned long long)v); }
  else if(op==1){ Bytes b=s.bytes(W); T v=def_ld<T>(b.data(),big); Guarded g(W,s.draw(16),(uint8_t)s.draw(256)); x.say("STORE%u%s(%llx)",8*W,E,(unsigned long long)v); o.s[big](v,g.p()); g.check("store"); Bytes r(b.rbegin(),b.rend()); if(g.get()!=b&&!(native&&g.get()==r)) fail("got %s",hex(g.get()).c_str()); }
  else if(op==2){ unsigned n=s.draw(6*W+1); Bytes b=s.bytes(n); Guarded g(b,s.draw(16)); unsigned words=(n+W-1)/W; std::vector<T> d(words+3); d[0]=d[words+1]=d[words+2]=(T)0xa5a5a5a5a5a5a5a5ull; for(unsigned i=0;i<words;i++) d[i+1]=0; x.say("LOAD%u%s_ARRAY(%s, %u bytes)",8*W,E,hex(b,48).c_str(),n); o.la[big](g.p(),d.data()+1,n); if(g.get()!=b) fail("source altered"); if(d[0]!=(T)0xa5a5a5a5a5a5a5a5ull||d[words+1]!=d[0]||d[words+2]!=d[0]) fail("word outside the destination written"); Bytes pad=b; pad.resize(words*W,0); for(unsigned i=0;i<words;i++){ T w=def_ld<T>(&pad[i*W],big); if(d[i+1]!=w&&!(native&&d[i+1]==def_ld<T>(&pad[i*W],false))) fail("word %u is %llx, expected %llx",i,(unsigned long long)d[i+1],(unsigned long long)w); } }
  else { unsigned words=1+s.draw(6); Bytes b=s.bytes(words*W); std::vector<T> w(words); memcpy(w.data(),b.data(),b.size()); auto keep=w; unsigned off=s.draw(words*W+1),n=s.draw(words*W-off+1); Guarded g(n,s.draw(16),(uint8_t)s.draw(256)); x.say("STORE%u%s_ARRAY(%s, offset %u, %u bytes)",8*W,E,hex(b,48).c_str(),off,n); o.sa[big](w.data(),off,g.p(),n); g.check("array store"); if(w!=keep) fail("source altered"); Bytes got=g.get(); for(unsigned i=0;i<n;i++){ uint8_t e=def_byte(w,off+i,big); if(got[i]!=e&&!(native&&got[i]==def_byte(w,off+i,false))) fail("byte %u is %02x, expected %02x",i,got[i],e); } }
  x.label("load/store"); x.nt(); }
template<class T,size_t N> void rot(Src&s,Ctx&x,T(*const*r)(T,unsigned),T(*const(&f)[2][N])(T)){ Bytes b=s.bytes(sizeof(T)); T v=def_ld<T>(b.data(),false); bool right=s.draw(2); const unsigned n=8*sizeof(T);
  if(s.draw(2)){ unsigned k=s.draw(20); unsigned a=k==19?(unsigned)s.draw(1ull<<32):(unsigned)s.draw(k<15?n+1:2*n+9); x.say("RO%c%u(%llx, %u)",right?'R':'L',n,(unsigned long long)v,a); T g=r[right](v,a); if(g!=def_rol(v,a,right)) fail("got %llx",(unsigned long long)g); x.label("variable rotation"); }
  else { unsigned a=1+s.draw(n-1); x.say("RO%c%u_%02u(%llx)",right?'R':'L',n,a,(unsigned long long)v); T g=f[right][a](v); if(g!=def_rol(v,a,right)) fail("got %llx",(unsigned long long)g); x.label("fixed rotation"); } x.nt(); }
static void c21(Src&s,Ctx&x){ const prim&c=*cfgs[s.strat(NC)]; x.say("[%s] ",c.name); x.label(c.name); switch(s.strat(7)){
  case 0: loadstore<uint16_t>(s,x,c,Ops<uint16_t>{c.l16,c.s16,c.la16,c.sa16,c.r16}); break; case 1: loadstore<uint32_t>(s,x,c,Ops<uint32_t>{c.l32,c.s32,c.la32,c.sa32,c.r32}); break; case 2: loadstore<uint64_t>(s,x,c,Ops<uint64_t>{c.l64,c.s64,c.la64,c.sa64,c.r64}); break;
  case 3: rot<uint8_t>(s,x,c.r8,c.f8); break; case 4: rot<uint16_t>(s,x,c.r16,c.f16); break; case 5: rot<uint32_t>(s,x,c.r32,c.f32); break; default: rot<uint64_t>(s,x,c.r64,c.f64); } }
// exhaustive: all 8- and 16-bit values by all amounts, all single bits and patterns for 32 and 64
template<class T,size_t N> void all(const prim&c,Ctx&x,T(*const*r)(T,unsigned),T(*const(&f)[2][N])(T),const std::vector<T>&vals){ const unsigned n=8*sizeof(T); for(T v:vals) for(int right=0;right<2;right++){ for(unsigned a=0;a<=n;a++){ T w=def_rol(v,a,right); if(r[right](v,a)!=w){ x.say("RO%c%u(%llx, %u)",right?'R':'L',n,(unsigned long long)v,a); fail("wrong rotation"); } if(a&&a<n&&f[right][a](v)!=w){ x.say("RO%c%u_%02u(%llx)",right?'R':'L',n,a,(unsigned long long)v); fail("wrong rotation"); } } } }
static void c21fix(uint64_t i,Ctx&x){ const prim&c=*cfgs[i/4]; x.say("[%s] exhaustive %u-bit ",c.name,8u<<i%4); x.label("exhaustive rotations"); x.nt(); if(i%4==0){ std::vector<uint8_t> v; for(unsigned k=0;k<256;k++) v.push_back(k); all<uint8_t>(c,x,c.r8,c.f8,v); } else if(i%4==1){ std::vector<uint16_t> v; for(unsigned k=0;k<65536;k++) v.push_back(k); all<uint16_t>(c,x,c.r16,c.f16,v); }
  else if(i%4==2){ std::vector<uint32_t> v={0,~0u,0x01234567,0xfedcba98}; for(int k=0;k<32;k++) v.push_back(1u<<k),v.push_back(~(1u<<k)); all<uint32_t>(c,x,c.r32,c.f32,v); } else { std::vector<uint64_t> v={0,~0ull,0x0123456789abcdefull}; for(int k=0;k<64;k++) v.push_back(1ull<<k),v.push_back(~(1ull<<k)); all<uint64_t>(c,x,c.r64,c.f64,v); } }
static Reg r21({"C21","configuration x helper family enumerated over the case index (default assembler rotations, portable rotations, little-endian and generic load/store, gcc and clang, unoptimised, trapping on undefined behaviour; and builds for MIPS processors of both byte orders and word sizes run by an emulator); values, offsets, byte counts, alignments and rotation amounts (also 0 and beyond the word size) drawn, compared with bit-by-bit definitions, guard bytes around every destination. Systematic part: all 8- and 16-bit values by all amounts, all single-bit values for 32 and 64. Non-trivial: every case.",3000000,60000000,c21,NC*4,c21fix,60,"KRIPTO_BIG_ENDIAN compiled for this little-endian host may give native order; it is held to the definition on the emulated big-endian processors"});
