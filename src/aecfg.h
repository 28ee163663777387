#pragma once
#include "maccfg.h"
#include "streamcfg.h"
struct AeCfg { std::string name; const kripto_desc_ae*d; AeDesc own; bool e2=false,weak=false; const BlockSpec*b=0; StreamCfg st; MacCfg mc; unsigned maxkey,minkey=1,maxiv,maxtag,multof=1,unit;
  std::vector<unsigned> rounds(unsigned kl)const; void split(size_t kl,size_t&mk,size_t&sk)const; ref::AeOut model(unsigned r,const Bytes&key,const Bytes&nonce,const Bytes&hdr,const Bytes&in,bool dec,size_t tl)const; };
void ae_eax(AeCfg&c,unsigned bi); void ae_eax_toy(AeCfg&c,unsigned bs); bool ae_eax2(AeCfg&c,unsigned sv,unsigned mv); // false: combination not usable
void pick_ae(Src&s,AeCfg&c,bool st); Bytes pick_aekey(Src&s,const AeCfg&c); Bytes pick_nonce(Src&s,const AeCfg&c);
