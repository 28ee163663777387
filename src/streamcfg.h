#pragma once
#include "common.h"
struct StreamCfg { std::string name; const kripto_desc_stream*d; StreamDesc own; int mode=-1; int nat=-1; const BlockSpec*b=0; unsigned maxkey,maxiv,multof,unit; // maxiv: bound used by generators
  bool xorlike()const{ return mode<0||mode>=3; } bool has_prng()const{ return mode<0||mode>=2; }
  std::vector<unsigned> rounds(unsigned kl)const; Bytes model(unsigned r,const Bytes&key,const Bytes&iv,const Bytes&in,bool dec)const; };
unsigned stream_variants(); void stream_cfg(StreamCfg&c,unsigned w); void stream_toy(StreamCfg&c,unsigned mode,unsigned bs); void stream_custom(StreamCfg&c,unsigned mode,const kripto_desc_block*d);
void pick_stream(Src&s,StreamCfg&c,bool st); Bytes pick_streamkey(Src&s,const StreamCfg&c); Bytes pick_iv(Src&s,const StreamCfg&c);
