// Property-based testing engine: a choice tape with shrinking, forked workers,
// crash attribution, deterministic case numbering and evidence counting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
struct Fail { std::string msg; };
struct Shared { // one per worker, mapped shared, survives a crash of the worker
  volatile uint64_t idx; volatile uint32_t ntape; volatile uint32_t state; // state: 0 idle 1 running
  char msg[1024]; char desc[3072]; uint64_t tape[1<<16];
};
class Src {
public:
  Src(uint64_t seed,uint64_t idx,uint64_t total,Shared*sh); // generate
  Src(const std::vector<uint64_t>&tape,Shared*sh); // replay
  uint64_t draw(uint64_t n); // 0..n-1; 0 is the simplest
  uint64_t strat(uint64_t n); // like draw; enumerates systematically over the case index
  uint64_t range(uint64_t lo,uint64_t hi){ return lo+draw(hi-lo+1); }
  bool chance(unsigned num,unsigned den); // true with num/den; the simple value is false
  Bytes bytes(size_t n); // various kinds of content
  Bytes random(size_t n); // unstructured content (no weak keys)
  size_t len(size_t max,size_t unit); // length with emphasis on multiples of unit and the extremes
  std::vector<size_t> split(size_t n,size_t unit,size_t multof); // partition, may contain zeros (if multof allows)
  std::vector<uint64_t> tape; // what was chosen so far
private:
  uint64_t rnd(); uint64_t put(uint64_t v);
  bool gen; uint64_t s[4]; uint64_t sidx,scap; const std::vector<uint64_t>*in; size_t pos; Shared*sh;
};
struct Ctx {
  bool nontrivial=false; std::string desc; Shared*sh; std::map<std::string,uint64_t>*labels; bool thorough=false; uint64_t seed=1;
  void label(const std::string&l){ if(labels) (*labels)[l]++; }
  void say(const char*f,...) __attribute__((format(printf,2,3))); // appends to the case description
  void nt(){ nontrivial=true; }
  // a genuine defect recorded in known_findings.txt: labelled when listed, a failure otherwise
  void known(const char*key,const std::string&msg);
};
[[noreturn]] void fail(const char*f,...) __attribute__((format(printf,1,2)));
std::string hex(const uint8_t*p,size_t n,size_t max=40);
inline std::string hex(const Bytes&b,size_t max=40){ return hex(b.data(),b.size(),max); }
void eq(const Bytes&got,const Bytes&want,const char*what); // fails with a readable difference
typedef std::function<void(Src&,Ctx&)> PropFn;
struct Prop {
  const char*id; const char*rule; uint64_t quick,thorough; PropFn fn;
  // further systematic parts run once per case index in [0,fixed): exhaustive or long cases
  uint64_t fixed; std::function<void(uint64_t,Ctx&)> fixfn;
  unsigned cpu_limit; // seconds of CPU a single case may take before it counts as not terminating
  const char*assume;
};
std::vector<Prop>& props();
struct Reg { Reg(const Prop&p){ props().push_back(p); } };
int engine_main(int argc,char**argv);
// a heap buffer of exactly n bytes between two patterned guard areas; misalign shifts its start
struct Guarded {
  std::vector<uint8_t> raw; size_t n,off; uint8_t pat;
  explicit Guarded(size_t n,unsigned misalign=0,uint8_t pat=0xC5):raw(n+64+16,pat),n(n),off(32+(misalign&15)),pat(pat){}
  Guarded(const Bytes&b,unsigned misalign=0):Guarded(b.size(),misalign){ if(n) memcpy(p(),b.data(),n); }
  uint8_t*p(){ return raw.data()+off; }
  Bytes get()const{ return Bytes(raw.begin()+off,raw.begin()+off+n); }
  void check(const char*what)const{ for(size_t i=0;i<raw.size();i++) if((i<off||i>=off+n)&&raw[i]!=pat) fail("%s: byte written at offset %ld outside a buffer of %zu bytes",what,(long)i-(long)off,n); }
};
