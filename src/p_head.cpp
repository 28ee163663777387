// C25: the public headers and the library as a whole
#include "engine.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <regex>
#include <dirent.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;
static string path(const char*k){ string e=getenv("VP_VARIANTS")?getenv("VP_VARIANTS"):"",n=string(k)+"="; size_t i=0; while(i<e.size()){ size_t j=e.find(';',i); if(j==string::npos) j=e.size(); if(!e.compare(i,n.size(),n)) return e.substr(i+n.size(),j-i-n.size()); i=j+1; } fail("harness: no path %s",k); }
static string slurp(const string&f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
// a header, what it declares, and the interface headers it builds on
struct Decl { string name; char kind; }; // kind: b h m s a descriptor of a family, f function, u unsigned constant
struct Hdr { string file; vector<string> need; vector<Decl> d; };
static void list(const string&dir,const string&rel,vector<string>&o){ DIR*d=opendir((dir+"/"+rel).c_str()); if(!d) fail("harness: cannot list %s",rel.c_str()); while(dirent*e=readdir(d)){ string n=e->d_name; if(n[0]=='.') continue; string r=rel+"/"+n; struct stat st; if(!stat((dir+"/"+r).c_str(),&st)&&S_ISDIR(st.st_mode)) list(dir,r,o); else if(n.size()>2&&n.substr(n.size()-2)==".h") o.push_back(r); } closedir(d); }
static vector<Hdr>& hdrs(){ static vector<Hdr> v; if(!v.empty()) return v; static const std::regex rc("/\\*[^]*?\\*/|//[^\n]*"),re("\\bextern\\s+([^;{}]*);"),rf("^([^(]*?)(kripto_\\w+)\\s*\\("),rd("kripto_desc_(block|hash|mac|stream|ae)\\b.*\\b(kripto_\\w+)\\s*$"),ru("unsigned int\\s+(kripto_\\w+)\\s*$"); vector<string> f; list(path("inc"),"kripto",f); std::sort(f.begin(),f.end());
  for(auto&n:f){ Hdr h; h.file=n; auto fam=[&](const char*p){ return n.compare(0,strlen(p),p)==0; }; const string I="kripto/"; for(const char*x:{"block","hash","mac","stream","ae"}) if(fam((I+x+"/").c_str())||n==I+"desc/"+x+".h") h.need.push_back(I+x+".h"); if(fam("kripto/mac/")){ h.need.push_back(I+"hash.h"); h.need.push_back(I+"block.h"); } if(fam("kripto/stream/")) h.need.push_back(I+"block.h"); if(fam("kripto/ae/")) for(const char*x:{"block.h","mac.h","stream.h"}) h.need.push_back(I+x); if(n==I+"pbkdf2.h"||n==I+"scrypt.h") h.need.push_back(I+"mac.h"); if(n==I+"scrypt.h"||n==I+"loadstore.h") h.need.push_back("stdint.h");
    string t=slurp(path("inc")+"/"+n); t=std::regex_replace(t,rc," "); 
    for(std::sregex_iterator i(t.begin(),t.end(),re),e;i!=e;++i){ string s=(*i)[1]; std::smatch m; if(std::regex_search(s,m,rf)) h.d.push_back({m[2],'f'}); else if(std::regex_search(s,m,rd)) h.d.push_back({m[2],string(m[1])[0]}); else if(std::regex_search(s,m,ru)) h.d.push_back({m[1],'u'}); }
    v.push_back(h); } return v; }
struct Lang { const char*name,*cmd; bool cxx; };
static const Lang langs[]={{"gcc c99","gcc -std=c99 -x c",0},{"gcc c11","gcc -std=c11 -x c",0},{"gcc gnu17","gcc -std=gnu17 -x c",0},{"clang c99","clang -std=c99 -x c",0},{"clang c17","clang -std=c17 -x c",0},{"g++ c++98","g++ -std=c++98 -x c++",1},{"g++ c++17","g++ -std=c++17 -x c++",1},{"clang++ c++11","clang++ -std=c++11 -x c++",1},{"clang++ c++20","clang++ -std=c++20 -x c++",1}};
static const unsigned NL=sizeof langs/sizeof*langs;
static const char*const flags[]={"-O0","-O2","-O1 -DKRIPTO_LITTLE_ENDIAN","-O0 -DNDEBUG","-O2 -D_GNU_SOURCE","-O0 -D_POSIX_C_SOURCE=200809L","-O0 -fno-common -funsigned-char"};
static const unsigned NF=sizeof flags/sizeof*flags;
// one program: includes in the order given, uses of everything declared; what it prints depends on the declarations alone
static string program(const vector<string>&inc,bool cxx){ std::ostringstream o; std::set<string> files(inc.begin(),inc.end()); if(cxx) o<<"extern \"C\" {\n"; for(auto&i:inc) o<<"#include <"<<i<<">\n"; if(cxx) o<<"}\n"; o<<"#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\ntypedef void (*any)(void); static volatile any use;\n"; 
  std::ostringstream b; auto at=[&](const char*f){ return files.count(string("kripto/")+f)>0; };
  for(auto&h:hdrs()) if(files.count(h.file)) for(auto&d:h.d){ const string&n=d.name; switch(d.kind){
    case 'f': b<<" use=(any)"<<n<<"; if(!use) printf(\""<<n<<" is null\\n\"); else printf(\"f "<<n<<"\\n\");\n"; break;
    case 'u': b<<" printf(\"u "<<n<<" %u\\n\","<<n<<");\n"; break;
    case 'b': b<<" printf(\"d "<<n<<" %u %u\\n\",kripto_block_size("<<n<<"),kripto_block_maxkey("<<n<<"));\n"; break;
    case 'h': b<<" printf(\"d "<<n<<" %u %u\\n\",kripto_hash_blocksize("<<n<<"),kripto_hash_maxout("<<n<<"));\n"; break;
    case 'm': b<<" printf(\"d "<<n<<" %u %u\\n\",kripto_mac_maxtag("<<n<<"),kripto_mac_maxkey("<<n<<"));\n"; break;
    case 's': b<<" printf(\"d "<<n<<" %u %u\\n\",kripto_stream_maxkey("<<n<<"),kripto_stream_maxiv("<<n<<"));\n"; break;
    default: b<<" printf(\"d "<<n<<" %u\\n\",kripto_ae_maxkey("<<n<<"));\n"; } }
  if(at("version.h")) b<<" if(KRIPTO_VERSION_MAJOR!=kripto_version_major||KRIPTO_VERSION_MINOR!=kripto_version_minor||KRIPTO_VERSION_REVISION!=kripto_version_revision) printf(\"version of header and library differ\\n\");\n";
  if(at("loadstore.h")) b<<" { unsigned char q[16]; int i; for(i=0;i<16;i++) q[i]=(unsigned char)(i*37+129); printf(\"l %x %x %x %x %llx %llx\\n\",(unsigned)LOAD16L(q+1),(unsigned)LOAD16B(q+1),(unsigned)LOAD32L(q+3),(unsigned)LOAD32B(q+3),(unsigned long long)LOAD64L(q+5),(unsigned long long)LOAD64B(q+5)); STORE32L(0x01020304u,q); STORE64B(0x1122334455667788ull,q+8); printf(\"s %d %d %d %d\\n\",q[0],q[3],q[8],q[15]); }\n";
  if(at("rotate.h")) b<<" printf(\"r %x %x %llx %llx\\n\",(unsigned)ROL32(0x81234567u,7),(unsigned)ROR32(0x81234567u,9),(unsigned long long)ROL64(0x8123456789abcdefull,13),(unsigned long long)ROR64(0x8123456789abcdefull,60));\n";
  if(at("memory.h")) b<<" { char z[4]={1,2,3,4}; printf(\"eq %d\\n\",kripto_memory_equals(z,\"\\1\\2\\3\\4\",4)!=0); kripto_memory_wipe(z,4); printf(\"w %d\\n\",z[3]); }\n";
  if(at("block/aes.h")){ b<<" { unsigned char q[16]; kripto_block*k=kripto_block_create(kripto_block_aes,0,\"0123456789abcdef\",16); memset(q,7,16); if(k){ kripto_block_encrypt(k,q,q); kripto_block_destroy(k); } printf(\"aes %02x%02x\\n\",q[0],q[15]); }\n"; if(at("stream/ctr.h")) b<<" { kripto_desc_stream*d=kripto_stream_ctr(kripto_block_aes); printf(\"ctr %u\\n\",d?kripto_stream_maxkey(d):0u); free(d); }\n"; if(at("ae/eax.h")) b<<" { kripto_desc_ae*d=kripto_ae_eax(kripto_block_aes); printf(\"eax %u\\n\",d?kripto_ae_maxkey(d):0u); free(d); }\n"; if(at("mac/omac.h")) b<<" { kripto_desc_mac*d=kripto_mac_omac(kripto_block_aes); printf(\"omac %u\\n\",d?kripto_mac_maxkey(d):0u); free(d); }\n"; }
  if(at("hash/sha2_256.h")){ b<<" { unsigned char q[32]; memset(q,0,32); if(kripto_hash_all(kripto_hash_sha2_256,0,0,0,\"abc\",3,q,32)) printf(\"sha failed\\n\"); printf(\"sha %02x%02x\\n\",q[0],q[31]); }\n"; if(at("mac/hmac.h")) b<<" { kripto_desc_mac*d=kripto_mac_hmac(kripto_hash_sha2_256); printf(\"hmac %u\\n\",d?kripto_mac_maxtag(d):0u); free(d); }\n"; }
  o<<"int main(void){\n"<<b.str()<<" return 0; }\n"; return o.str(); }
struct Run { string out,err; int rc; };
static Run build_run(const string&src,const Lang&l,const char*fl,bool shared){ char dir[]="/tmp/vph-XXXXXX"; if(!mkdtemp(dir)) fail("harness: mkdtemp"); string d=dir; { std::ofstream f(d+"/p.src"); f<<src; } string so=path("so"),sd=so.substr(0,so.rfind('/')),cmd="cd "+d+" && "+l.cmd+" -w "+fl+" -I"+path("inc")+" p.src -o p -x none "+(shared?so+" -Wl,-rpath,"+sd:path("a"))+" -lm > err 2>&1 && ./p > out 2>> err"; Run r; r.rc=system(cmd.c_str()); r.out=slurp(d+"/out"); r.err=slurp(d+"/err"); for(const char*n:{"/p.src","/p","/out","/err"}) unlink((d+n).c_str()); rmdir(dir); return r; }
static string first(const string&e){ size_t i=e.find("undefined ref"); if(i==string::npos) i=e.find("error"); if(i==string::npos) i=0; size_t a=e.rfind('\n',i); a=a==string::npos?0:a+1; return e.substr(a,300); }
static void order(const vector<string>&want,vector<string>&out){ std::set<string> have(out.begin(),out.end()); for(auto&w:want){ for(auto&h:hdrs()) if(h.file==w) for(auto&n:h.need) if(!have.count(n)){ have.insert(n); out.push_back(n); } out.push_back(w); have.insert(w); } }
// the lines of the program over all headers, by their first two words
static const std::map<string,string>& all(){ static std::map<string,string> m; if(!m.empty()) return m; vector<string> w,o; for(auto&h:hdrs()) w.push_back(h.file); order(w,o); Run r=build_run(program(o,false),langs[0],flags[0],false); if(r.rc) fail("a program including every header cannot be built: %s",first(r.err).c_str()); std::istringstream i(r.out); string l; while(std::getline(i,l)){ size_t a=l.find(' '); if((l[0]=='d'||l[0]=='f'||l[0]=='u')&&a==1) a=l.find(' ',2); m[l.substr(0,a)]=l; } return m; }
static void check(const vector<string>&inc,const Lang&l,const char*fl,bool sh,Ctx&x){ Run r=build_run(program(inc,l.cxx),l,fl,sh); if(r.rc) fail("the program cannot be built or run: %s",first(r.err).c_str()); std::istringstream i(r.out); string s; unsigned n=0; while(std::getline(i,s)){ if(s.find(" is null")!=string::npos||s.find("differ")!=string::npos) fail("%s",s.c_str()); size_t a=s.find(' '); if((s[0]=='d'||s[0]=='f'||s[0]=='u')&&a==1) a=s.find(' ',2); auto q=all().find(s.substr(0,a)); if(q==all().end()||q->second!=s) fail("\"%s\" is printed, a program including every header prints \"%s\"",s.c_str(),q==all().end()?"":q->second.c_str()); n++; } x.label(sh?"shared library":"static library"); x.label(l.name); if(n>2) x.nt(); }
static void c25(Src&s,Ctx&x){ auto&H=hdrs(); unsigned n=1+s.draw(s.draw(3)?6:25); vector<string> w; for(unsigned i=0;i<n;i++) w.push_back(H[i?s.draw(H.size()):s.strat(H.size())].file); if(s.draw(6)==5) w.push_back(w[s.draw(w.size())]); vector<string> o; 
  // prerequisites just in time, or all interface headers first in some order
  if(s.draw(2)){ vector<string> f={"kripto/block.h","kripto/hash.h","kripto/mac.h","kripto/stream.h","kripto/ae.h"}; for(unsigned i=4;i>0;i--) std::swap(f[i],f[s.draw(i+1)]); order(f,o); } order(w,o); const Lang&l=langs[s.draw(NL)]; const char*fl=flags[s.draw(NF)]; bool sh=s.draw(3)==2; x.say("%s %s:",l.name,fl); for(auto&i:o) x.say(" %s",i.c_str()); check(o,l,fl,sh,x); }
static void c25fix(uint64_t i,Ctx&x){ auto&H=hdrs(); size_t n=H.size(); if(i<2*NL){ const Lang&l=langs[i%NL]; bool rev=i>=NL; vector<string> w,o; for(auto&h:H) w.push_back(h.file); if(rev) std::reverse(w.begin(),w.end()); order(w,o); if(rev) order(w,o); x.say("%s: every header%s",l.name,rev?", backwards and twice":""); check(o,l,flags[0],rev,x); x.label("every header"); return; } i-=2*NL;
  if(i<n){ vector<string> w={H[i].file},o; order(w,o); x.say("%s alone, every language",H[i].file.c_str()); for(auto&l:langs) check(o,l,flags[0],false,x); x.label("one header alone"); x.nt(); return; } i-=n;
  if(i==0){ x.say("global symbols of the library"); FILE*p=popen(("nm -g --defined-only '"+path("a")+"' 2>/dev/null").c_str(),"r"); char b[400]; unsigned k=0; string bad; while(fgets(b,sizeof b,p)){ char a1[100],t,nm[250]; if(sscanf(b,"%99s %c %249s",a1,&t,nm)==3){ k++; if(strncmp(nm,"kripto_",7)&&nm[0]!='_') bad=nm; } } pclose(p); if(k<20) fail("harness: nm"); if(bad.size()) fail("the library defines the global name %s, outside its own prefix",bad.c_str()); x.label("symbols"); x.nt(); }
  if(i==1){ x.say("the tweak functions of Threefish"); for(unsigned v:{256u,512u,1024u}){ string n=std::to_string(v),src="#include <kripto/block.h>\n#include <kripto/block/threefish"+n+".h>\n#include <stdio.h>\n#include <string.h>\nint main(void){ unsigned char k[128],a[128],b[128],t[16]; int i; for(i=0;i<128;i++) k[i]=a[i]=b[i]=(unsigned char)(i*7+1); for(i=0;i<16;i++) t[i]=(unsigned char)(i*11+3); kripto_block*s=kripto_block_create(kripto_block_threefish"+n+",0,k,"+std::to_string(v/8)+"); if(!s) return 2; kripto_block_tweak(s,t,16); kripto_block_encrypt(s,a,a); t[5]^=1; kripto_block_tweak(s,t,16); t[5]^=1; kripto_block_threefish"+n+"_tweak(s,t); kripto_block_encrypt(s,b,b); kripto_block_destroy(s); return memcmp(a,b,128)!=0; }\n"; Run r=build_run(src,langs[0],"-O1",false); if(r.rc) fail("kripto_block_threefish%u_tweak is not kripto_block_tweak with 16 bytes: %s",v,r.err.size()?first(r.err).c_str():"the ciphertexts differ"); } x.label("Threefish tweak functions"); x.nt(); } }
static size_t c25n(){ try { return 2*NL+2+hdrs().size(); } catch(...) { return 2*NL+200; } }
static Reg r25({"C25","programs that include a random set of the public headers (interface headers before the algorithms built on them, otherwise in any order, some twice), in nine language modes of gcc and clang (C99 to C17, C++98 to C++20), with various feature macros and optimisation levels, linked against the static or the shared library; each refers to every function, descriptor and constant the headers declare, calls the limit functions, loads, stores, rotations and some algorithms, and must build, run and print what a program including every header prints. Systematic part: every header alone and all together in every language, the library's global names, the Threefish tweak functions. Non-trivial: programs that print more than two results.",700,20000,c25,c25n(),c25fix,200,"the prerequisites of a header are those of the current tree (interface header of the family)"});
