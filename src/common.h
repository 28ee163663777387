#pragma once
#include "engine.h"
#include "bind.h"
#include "../ref/ref.h"
#include <memory>
#include <algorithm>
#include <cstdlib>
using ref::BlockSpec; using ref::HashSpec;
inline const BlockSpec& rblock(const char*n){ return ref::block(strcmp(n,"aes")?n:"rijndael128"); }
inline bool thorough_env(){ return false; }
struct Free { void operator()(void*p)const{ free(p); } };
typedef std::unique_ptr<kripto_desc_stream,Free> StreamDesc; typedef std::unique_ptr<kripto_desc_mac,Free> MacDesc; typedef std::unique_ptr<kripto_desc_ae,Free> AeDesc; typedef std::unique_ptr<kripto_desc_block,Free> BlockDesc;
struct BDel { void operator()(kripto_block*p)const{ kripto_block_destroy(p); } }; typedef std::unique_ptr<kripto_block,BDel> BlockP;
struct HDel { void operator()(kripto_hash*p)const{ kripto_hash_destroy(p); } }; typedef std::unique_ptr<kripto_hash,HDel> HashP;
struct MDel { void operator()(kripto_mac*p)const{ kripto_mac_destroy(p); } }; typedef std::unique_ptr<kripto_mac,MDel> MacP;
struct SDel { void operator()(kripto_stream*p)const{ kripto_stream_destroy(p); } }; typedef std::unique_ptr<kripto_stream,SDel> StreamP;
struct ADel { void operator()(kripto_ae*p)const{ kripto_ae_destroy(p); } }; typedef std::unique_ptr<kripto_ae,ADel> AeP;
// pointer to data, never null even for empty data
inline const uint8_t* cp(const Bytes&b){ static const uint8_t z[1]={0}; return b.empty()?z:b.data(); }
inline uint8_t* mp(Bytes&b){ static uint8_t z[1]; return b.empty()?z:b.data(); }
// explicit round count or 0
inline unsigned pick_rounds(Src&s,const std::vector<unsigned>&v,unsigned num=1,unsigned den=2){ if(v.empty()||!s.chance(num,den)) return 0; size_t n=v.size(); if(v.back()>100){ size_t m=std::upper_bound(v.begin(),v.end(),100u)-v.begin(); if(m&&!s.chance(1,16)) n=m; } return v[s.draw(n)]; }
// key length with emphasis on word multiples and the limits
inline unsigned pick_keylen(Src&s,unsigned max,unsigned cap=400){ unsigned m=std::min(max,cap); unsigned k=s.draw(4); if(k==0) return 1+s.draw(m); if(k==1) return m-s.draw(std::min(m,3u)); unsigned u[]={1,2,4,8,16}; unsigned x=u[s.draw(5)]; if(x>m) x=1; return x*(1+s.draw(m/x)); }
// one object in four is not new: it was created with other parameters, used, and re-created
inline bool aged(Src&s,Ctx&x){ if(!s.chance(1,4)) return false; x.label("re-created object"); x.say(" (re-created)"); return true; }
inline kripto_block* bcreate(const kripto_desc_block*d,unsigned r,const Bytes&k){ kripto_block*b=kripto_block_create(d,r,k.data(),k.size()); if(!b) fail("kripto_block_create failed (rounds %u, key length %zu)",r,k.size()); return b; }
