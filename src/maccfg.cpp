#include "maccfg.h"
#include "toy.h"
static std::vector<unsigned>& xb(){ static std::vector<unsigned> v; if(v.empty()) for(unsigned i=0;i<n_blocks;i++){ auto&s=rblock(g_blocks[i].name); if(s.bs<=s.maxkey) v.push_back(i); } return v; }
unsigned mac_variants(){ return n_hashes+n_blocks+xb().size()+n_macs; }
void mac_cfg(MacCfg&m,unsigned w){ if(w<n_hashes){ m.kind=0; m.h=&ref::hash(g_hashes[w].name); m.name=std::string("hmac(")+g_hashes[w].name+")"; m.own.reset(lhmac(g_hashes[w].d)); m.block=m.h->blocksize; m.maxkey=600; m.maxtag=m.h->maxout?m.h->maxout:220; }
  else if((w-=n_hashes)<n_blocks){ m.kind=1; m.b=&rblock(g_blocks[w].name); m.name=std::string("omac(")+g_blocks[w].name+")"; m.own.reset(lomac(g_blocks[w].d)); m.block=m.b->bs; m.maxkey=m.b->maxkey; m.maxtag=m.b->bs; }
  else if((w-=n_blocks)<xb().size()){ w=xb()[w]; m.kind=2; m.b=&rblock(g_blocks[w].name); m.name=std::string("xcbc(")+g_blocks[w].name+")"; m.own.reset(lxcbc(g_blocks[w].d)); m.block=m.b->bs; m.maxkey=m.b->maxkey; m.maxtag=m.b->bs; }
  else { w-=xb().size(); m.kind=3; m.name=std::string(g_macs[w].name)+" mac"; m.h=&ref::hash(g_macs[w].name); m.block=m.h->blocksize; m.maxkey=600; m.d=g_macs[w].d; m.nw=m.name[0]=='s'?atoi(g_macs[w].name+5)/64:0; m.maxtag=m.nw?8*m.nw:m.name[6]=='1'?99:49; return; }
  if(!m.own) fail("constructor of %s failed",m.name.c_str()); m.d=m.own.get(); }
void mac_toy(MacCfg&m,bool x,unsigned bs){ const ToyCipher&t=toy(bs); m.kind=x?2:1; m.b=&t.rs; m.name=std::string(x?"xcbc(":"omac(")+"custom cipher, block "+std::to_string(bs)+")"; m.own.reset(x?lxcbc(t.d):lomac(t.d)); if(!m.own) fail("constructor of %s failed",m.name.c_str()); m.d=m.own.get(); m.block=bs; m.maxkey=255; m.maxtag=bs; }
void pick_mac(Src&s,MacCfg&m,bool st){ unsigned v=mac_variants(); unsigned w=st?s.strat(v+40):s.draw(v+12); if(w<v) mac_cfg(m,w); else { bool x=s.draw(2); mac_toy(m,x,1+s.draw(255)); } }
unsigned pick_taglen(Src&s,const MacCfg&m){ unsigned k=s.draw(3); if(k==0) return m.maxtag; if(k==1) return 1+s.draw(m.maxtag); unsigned v[]={4,8,10,12,16,20,24,28,32,48,64}; unsigned t=v[s.draw(11)]; return t<=m.maxtag?t:m.maxtag; }
Bytes pick_mackey(Src&s,const MacCfg&m){ if(m.b) return s.bytes(pick_keylen(s,m.maxkey)); unsigned k=s.draw(8); unsigned n; if(k<3) n=1+s.draw(2*m.block+5); else if(k<5) n=std::max<int>(1,(int)(m.block*(1+s.draw(2)))+(int)s.draw(3)-1); else if(k<7) n=1+s.draw(64); else n=s.draw(12)?1+s.draw(600):1+s.draw(70000); return s.bytes(n); }
std::vector<unsigned> MacCfg::rounds(unsigned kl)const{ if(b&&kind==2){ auto v=b->rounds(kl),w=b->rounds(b->bs); std::vector<unsigned> r; for(unsigned q:v) if(std::find(w.begin(),w.end(),q)!=w.end()) r.push_back(q); return r; } if(b) return b->rounds(kl); return h->rounds(); }
Bytes MacCfg::model(unsigned r,const Bytes&key,const Bytes&msg,size_t tl,size_t n)const{ switch(kind){ case 0: return ref::hmac(*h,r,key,msg,tl,n); case 1: return ref::omac(*b->make(r,key),b->bs,msg,n); case 2: return ref::xcbc(*b,r,key,msg,n); }
  Bytes km=key; km.insert(km.end(),msg.begin(),msg.end()); if(nw) return ref::skein(nw,r,key,Bytes(),msg,tl*8,n); if(h->blocksize==200) return ref::sponge1600(r?r:24,200-2*tl,1,km,n); return ref::sponge800(r?r:22,100-2*tl,1,km,n); }
