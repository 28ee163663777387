#pragma once
#include "machine.h"
#include "engine.h"
#include "aecfg.h"
// what the generator knows about a configuration
struct GCfg { Cfg id; std::string name; const BlockSpec*b=0; const HashSpec*h=0; MacCfg m; StreamCfg st; AeCfg ae;
  unsigned maxkey=0,minkey=1,maxiv=0,maxout=0,multof=1,unit=1; bool prng=false; std::vector<unsigned> rounds(unsigned kl)const; };
unsigned cfg_count(); // library-only configurations without EAX2 pairs
void cfg_fixed(GCfg&g,unsigned i);
void cfg_eax2(GCfg&g,unsigned sv,unsigned mv);
unsigned mac_index(const Cfg&c);
void cfg_pick(Src&s,GCfg&g,int fam); // fam 1..5
struct GenOpt { unsigned nops=20,slots=4,maxdata=0; bool oneshots=true,random=false,factories=true; int only=-1; /* single configuration: cfg_fixed index */ const GCfg*cfg=0; unsigned heavy=1; };
Prog gen_prog(Src&s,const GenOpt&o,std::string*desc);
Prog life_prog(Src&s,unsigned cfg,std::string*desc); // create, use, recreate, use, ..., destroy of one configuration
std::string op_str(const Op&o);
std::string cfg_str(const Cfg&c);
