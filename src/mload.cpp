#include "machine.h"
#include <dlfcn.h>
bool load_variant(Variant&v,const char*path,const char*name,std::string&err){ v.name=name; v.h=dlopen(path,RTLD_NOW|RTLD_LOCAL); if(!v.h){ err=dlerror(); return false; }
  auto s=[&](const char*n){ void*p=dlsym(v.h,n); if(!p) err=n; return p; };
  v.create=(Exec*(*)(const Prog*,unsigned))s("vx_new"); v.op=(int(*)(Exec*,size_t))s("vx_op"); v.out=(const Bytes*(*)(Exec*))s("vx_out"); v.err=(const char*(*)(Exec*))s("vx_err"); v.finish=(void(*)(Exec*))s("vx_finish"); v.prepare=(void(*)(const Prog*))s("vx_prepare"); v.owned=(size_t(*)(Exec*))s("vx_owned"); v.hook=(void*(*)())s("vx_hook"); return err.empty(); }
