#include "streamcfg.h"
#include "toy.h"
unsigned stream_variants(){ return n_streams+5*n_blocks; }
static void mode_cfg(StreamCfg&c,unsigned m,const char*bn,const kripto_desc_block*bd){ c.mode=m; c.name=std::string(g_modes[m])+"("+bn+")"; c.own.reset(lmode(m,bd)); if(!c.own) fail("constructor of %s failed",c.name.c_str()); c.d=c.own.get(); c.maxkey=c.b->maxkey; c.maxiv=m?c.b->bs:0; c.unit=c.b->bs; c.multof=m<2?c.b->bs:1; }
void stream_cfg(StreamCfg&c,unsigned w){ if(w<n_streams){ c.nat=w; c.name=g_streams[w].name; c.d=g_streams[w].d; c.multof=1; static const unsigned mk[]={32,32,256,99,49,300,300,300},mi[]={24,24,0,500,300,300,300,300},un[]={64,64,64,100,50,32,64,128}; c.maxkey=mk[w]; c.maxiv=mi[w]; c.unit=un[w]; return; } w-=n_streams; const char*bn=g_blocks[w/5].name; c.b=&rblock(bn); mode_cfg(c,w%5,bn,g_blocks[w/5].d); }
void stream_custom(StreamCfg&c,unsigned m,const kripto_desc_block*d){ static BlockSpec spec; spec.bs=kripto_block_size(d); spec.maxkey=kripto_block_maxkey(d); c.b=&spec; mode_cfg(c,m,"fast custom cipher",d); }
void stream_toy(StreamCfg&c,unsigned m,unsigned bs){ const ToyCipher&t=toy(bs); c.b=&t.rs; mode_cfg(c,m,("custom cipher, block "+std::to_string(bs)).c_str(),t.d); }
void pick_stream(Src&s,StreamCfg&c,bool st){ unsigned v=stream_variants()+10*n_streams+20; unsigned w=st?s.strat(v):s.draw(v); if(w<stream_variants()) stream_cfg(c,w); else if((w-=stream_variants())<10*n_streams) stream_cfg(c,w%n_streams); else { unsigned m=s.draw(5); stream_toy(c,m,1+s.draw(255)); } }
Bytes pick_streamkey(Src&s,const StreamCfg&c){ if(c.nat>=0&&c.nat<2){ unsigned n=s.draw(3)?1+s.draw(32):s.draw(2)?32:16; return s.bytes(n); } return s.bytes(pick_keylen(s,c.maxkey)); }
Bytes pick_iv(Src&s,const StreamCfg&c){ if(!c.maxiv) return Bytes(); size_t n; unsigned k=s.draw(4); if(k==0) n=c.maxiv>=300?c.maxiv-s.draw(40):c.maxiv; else if(k==1&&c.nat>=0&&c.nat<2){ static const unsigned v[]={8,12,24,9,13,16,0,23}; n=v[s.draw(8)]; } else if(k==2&&c.mode<0) n=std::min<size_t>(c.maxiv,8*s.draw(5)); else n=s.draw(c.maxiv+1); Bytes iv=s.bytes(n);
  if(n&&c.b&&s.chance(1,2)){ size_t f=1+s.draw(n); for(size_t i=n-f;i<n;i++) iv[i]=0xff; iv[n-1]-=s.draw(4); } return iv; }
std::vector<unsigned> StreamCfg::rounds(unsigned kl)const{ if(b) return b->rounds(kl); std::vector<unsigned> v; if(nat==0||nat==1){ for(unsigned i=2;i<=40;i+=2) v.push_back(i); for(unsigned i:{126u,128u,254u,256u,258u,512u}) v.push_back(i); } else if(nat==2) for(unsigned i:{1u,2u,255u,256u,257u,768u,1024u,3072u}) v.push_back(i); else return ref::hash(g_streams[nat].name).rounds(); return v; }
Bytes StreamCfg::model(unsigned r,const Bytes&key,const Bytes&iv,const Bytes&in,bool dec)const{ if(b){ auto q=b->make(r,key); return ref::mode_crypt(g_modes[mode],*q,b->bs,iv,in,dec); } Bytes k; size_t n=in.size(); switch(nat){ case 0: k=ref::chacha_ks(r,key,iv,n); break; case 1: k=ref::salsa20_ks(r,key,iv,n); break; case 2: k=ref::rc4_ks(r,key,n); break; case 3: k=ref::keccak1600_ks(r,key,iv,n); break; case 4: k=ref::keccak800_ks(r,key,iv,n); break; default: k=ref::skein_ks(unit/8,r,key,iv,n); } for(size_t i=0;i<n;i++) k[i]^=in[i]; return k; }
