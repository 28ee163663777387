// A MIPS processor (32 or 64 bits, either byte order) which runs the library compiled for it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <stdexcept>
struct Guest {
  bool be=true,w64=false; std::string name;
  uint8_t*mem=nullptr; uint32_t size=0; // guest address = offset
  uint32_t ro_end=0; // stores below fault
  explicit Guest(const char*path); ~Guest();
  Guest(const Guest&)=delete;
  uint32_t sym(const std::string&n) const; // 0 if absent
  struct Arg { uint64_t v; uint8_t k; }; // k: 0 unsigned int, 1 pointer or size_t, 2 uint64_t
  static Arg U(unsigned v){ return {v,0}; } static Arg P(uint64_t v){ return {v,1}; } static Arg W(uint64_t v){ return {v,2}; }
  uint64_t call(uint32_t fn,const std::vector<Arg>&a); // register v0 (and v1 where a result has 64 bits: see wide)
  uint64_t call64(uint32_t fn,const std::vector<Arg>&a);
  uint64_t word(uint32_t a) const; // a pointer in guest memory
  // harness memory in the guest: area reset by mark()/release()
  uint32_t put(const void*p,size_t n,unsigned align16); uint32_t room(size_t n,unsigned align16); void guard_check();
  struct Scope { Guest&g; uint32_t m; size_t k; Scope(Guest&g):g(g),m(g.hp),k(g.guards.size()){} ~Scope(){ g.hp=m; g.guards.resize(k); } };
  void gfree(uint32_t a); size_t live() const { return blocks.size(); }
  uint64_t executed=0;
private:
  friend struct Scope;
  struct In { uint8_t op,rs,rt,rd; int32_t imm; };
  std::vector<In> code; uint32_t base=0,stop=0; uint64_t r[32],hi=0,lo=0;
  std::map<std::string,uint32_t> syms; std::unordered_map<uint32_t,uint32_t> blocks; std::unordered_map<uint32_t,std::vector<uint32_t>> freed; uint32_t heap=0,heap_end=0,hp=0,h0=0,h1=0,sp0=0; uint64_t budget=0;
  struct Gd { uint32_t a,n; }; std::vector<Gd> guards;
  void run(uint32_t pc); void svc(unsigned n,uint32_t pc); [[noreturn]] void fault(uint32_t pc,const char*w,uint64_t a=0); void decode(uint32_t w,In&i);
  void range(uint32_t pc,uint64_t a,uint64_t n,bool wr);
  uint32_t galloc(uint32_t n);
};
