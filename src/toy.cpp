#include "toy.h"
#include "toyc.h"
struct TB:ref::Block { Bytes k; unsigned r,n; void enc(const uint8_t*i,uint8_t*o)override{ toy_enc(k.data(),k.size(),r,n,i,o); } void dec(const uint8_t*i,uint8_t*o)override{ toy_dec(k.data(),k.size(),r,n,i,o); } };
const ToyCipher& toy(unsigned bs){ static ToyCipher*v[256]; if(!v[bs]){ auto*t=new ToyCipher; t->d=toy_desc(bs);
    t->rs.name="toy"+std::to_string(bs); t->rs.bs=bs; t->rs.maxkey=255; t->rs.maxtweak=0; t->rs.make=[bs](unsigned r,const Bytes&k){ auto*b=new TB; b->k=k; b->r=r?r:5; b->n=bs; return std::unique_ptr<ref::Block>(b); }; t->rs.rounds=[](unsigned){ return std::vector<unsigned>{1,2,3,7}; }; v[bs]=t; } return *v[bs]; }
