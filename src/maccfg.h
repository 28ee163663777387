// Any MAC the library can build, with its model.
#pragma once
#include "common.h"
struct MacCfg { std::string name; const kripto_desc_mac*d; MacDesc own; bool hm=false; const HashSpec*h=0; const BlockSpec*b=0; int kind; unsigned block; unsigned nw=0; 
  unsigned maxkey; unsigned maxtag; // maxtag: sensible upper bound used by the generators
  std::vector<unsigned> rounds(unsigned kl)const; Bytes model(unsigned r,const Bytes&key,const Bytes&msg,size_t tl,size_t n)const; };
// kinds: 0 hmac 1 omac 2 xcbc 3 native; which<mac_variants(); custom block sizes beyond
unsigned mac_variants(); // number of library-only variants
void mac_cfg(MacCfg&m,unsigned which);
void mac_toy(MacCfg&m,bool xcbc,unsigned bs);
void pick_mac(Src&s,MacCfg&m,bool st);
unsigned pick_taglen(Src&s,const MacCfg&m);
Bytes pick_mackey(Src&s,const MacCfg&m);
