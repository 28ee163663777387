#include "aecfg.h"
#include "toy.h"
static void fin(AeCfg&c){ if(!c.own) fail("constructor of %s failed",c.name.c_str()); c.d=c.own.get(); }
void ae_eax(AeCfg&c,unsigned i){ c.b=&rblock(g_blocks[i].name); c.name=std::string("eax(")+g_blocks[i].name+")"; c.own.reset(leax(g_blocks[i].d)); fin(c); c.maxkey=c.b->maxkey; c.maxiv=c.maxtag=c.unit=c.b->bs; }
void ae_eax_toy(AeCfg&c,unsigned bs){ auto&t=toy(bs); c.weak=true; c.b=&t.rs; c.name="eax(custom cipher, block "+std::to_string(bs)+")"; c.own.reset(leax(t.d)); fin(c); c.maxkey=255; c.maxiv=c.maxtag=c.unit=bs; }
bool ae_eax2(AeCfg&c,unsigned sv,unsigned mv){ c.e2=true; stream_cfg(c.st,sv); mac_cfg(c.mc,mv); if(c.mc.kind==0&&!c.mc.h->maxout) return false; c.name="eax2("+c.st.name+", "+c.mc.name+")"; c.own.reset(leax2(c.st.d,c.mc.d)); fin(c); c.minkey=2; c.maxkey=c.st.maxkey+c.mc.maxkey; if(c.mc.maxkey>=600&&c.maxkey>700) c.maxkey=700; c.maxiv=c.st.maxiv; c.maxtag=c.mc.maxtag; c.multof=c.st.multof; c.unit=std::max(c.st.unit,c.multof); return true; }
void pick_ae(Src&s,AeCfg&c,bool st){ unsigned half=st?s.strat(2):s.draw(2); if(!half){ unsigned w=st?s.strat(n_blocks+15):s.draw(n_blocks+15); if(w<n_blocks) ae_eax(c,w); else { unsigned b=1+s.draw(255); ae_eax_toy(c,b); } return; } // EAX2
  unsigned sv=st?s.strat(stream_variants()+8*n_streams):s.draw(stream_variants()+8*n_streams); if(sv>=stream_variants()) sv=(sv-stream_variants())%n_streams; unsigned mv=s.draw(mac_variants()); if(!ae_eax2(c,sv,mv)){ c.~AeCfg(); new(&c) AeCfg(); ae_eax2(c,sv,0); } }
std::vector<unsigned> AeCfg::rounds(unsigned kl)const{ if(!e2) return b->rounds(kl); size_t mk,sk; split(kl,mk,sk); auto v=st.rounds(sk),w=mc.rounds(mk); std::vector<unsigned> r; for(unsigned q:v) if(std::find(w.begin(),w.end(),q)!=w.end()) r.push_back(q); return r; }
static uint64_t realmax(const MacCfg&m){ return m.b?m.maxkey:0xFFFFFFFFu; }
static uint64_t smax(const StreamCfg&c){ return c.nat>=5?0xFFFFFFFFu:c.maxkey; } static uint64_t simax(const StreamCfg&c){ return c.nat>=3?0xFFFFFFFFu:c.maxiv; }
void AeCfg::split(size_t n,size_t&mk,size_t&sk)const{ sk=std::min<uint64_t>((n+1)/2,smax(st)); mk=n-sk; if(mk>realmax(mc)){ mk=realmax(mc); sk=n-mk; } }
ref::AeOut AeCfg::model(unsigned r,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tl)const{ if(!e2) return ref::eax(*b,r,key,nonce,hdr,in,dec,tl);
  return ref::eax2([&](const Bytes&k,const Bytes&iv,const Bytes&i,bool d){ return st.model(r,k,iv,i,d); },smax(st),simax(st),[&](const Bytes&k,const Bytes&m,size_t t){ return mc.model(r,k,m,t,t); },realmax(mc),key,nonce,hdr,in,dec,tl); }
Bytes pick_aekey(Src&s,const AeCfg&c){ unsigned n=pick_keylen(s,c.maxkey,700); if(n<c.minkey) n=c.minkey; return s.bytes(n); }
Bytes pick_nonce(Src&s,const AeCfg&c){ if(!c.maxiv) return Bytes(); unsigned k=s.draw(4); size_t n=k==0?std::min(c.maxiv,c.unit):k==1?s.draw(std::min(c.maxiv,17u)+1):k==2?std::min(c.maxiv,16u):s.draw(c.maxiv+1); return s.bytes(n); }
