#include "variants.h"
#include "engine.h"
#include <stdlib.h>
std::vector<Variant>& variants(){ static std::vector<Variant> v; static bool done; if(done) return v; done=true; const char*e=getenv("VP_VARIANTS"); std::string s=e?e:""; size_t i=0; while(i<s.size()){ size_t j=s.find(';',i); if(j==std::string::npos) j=s.size(); std::string x=s.substr(i,j-i); i=j+1; size_t q=x.find('='); if(q==std::string::npos) continue; Variant a; std::string err; if(!load_variant(a,x.substr(q+1).c_str(),x.substr(0,q).c_str(),err)){ fprintf(stderr,"cannot load %s: %s\n",x.c_str(),err.c_str()); _Exit(9); } v.push_back(a); } return v; }
