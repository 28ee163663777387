#include "emu.h"
#include <elf.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
enum Op:uint8_t { BAD,NOP,SYS,TRAP_EQ,TRAP_NE,SLL,SRL,SRA,ROTR,SLLV,SRLV,SRAV,ROTRV,JR,JALR,MFHI,MFLO,MTHI,MTLO,MULT,MULTU,DIV,DIVU,ADDU,SUBU,AND,OR,XOR,NOR,SLT,SLTU,MOVZ,MOVN,
  BLTZ,BGEZ,BLTZAL,BGEZAL,J,JAL,BEQ,BNE,BLEZ,BGTZ,ADDIU,SLTI,SLTIU,ANDI,ORI,XORI,LUI,LB,LH,LWL,LW,LBU,LHU,LWR,LWU,SB,SH,SWL,SW,SWR,LD,SD,LDL,LDR,SDL,SDR,
  MUL,MADD,MADDU,MSUB,MSUBU,CLZ,CLO,DCLZ,DCLO,EXT,INS,WSBH,SEB,SEH,DEXT,DINS,DSBH,DSHD,
  DADDU,DSUBU,DADDIU,DSLL,DSRL,DSRA,DROTR,DSLLV,DSRLV,DSRAV,DROTRV,DMULT,DMULTU,DDIV,DDIVU };
static inline uint64_t sx(uint32_t v){ return (uint64_t)(int64_t)(int32_t)v; }
Guest::Guest(const char*path){ FILE*f=fopen(path,"rb"); if(!f) throw std::runtime_error(std::string("cannot read ")+path); std::vector<uint8_t> b; uint8_t t[65536]; size_t k; while((k=fread(t,1,sizeof t,f))) b.insert(b.end(),t,t+k); fclose(f);
  if(b.size()<64||memcmp(b.data(),"\177ELF",4)) throw std::runtime_error(std::string(path)+": not an image"); w64=b[4]==2; be=b[5]==2; auto rd=[&](size_t o,int n){ uint64_t v=0; for(int i=0;i<n;i++) v|=(uint64_t)b.at(o+i)<<8*(be?n-1-i:i); return v; };
  size=256u<<20; mem=(uint8_t*)mmap(0,size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(mem==MAP_FAILED) throw std::runtime_error("no memory for the emulated machine");
  uint64_t ph=rd(w64?32:28,w64?8:4),sh=rd(w64?40:32,w64?8:4); unsigned pn=rd(w64?56:44,2),sn=rd(w64?60:48,2),pe=w64?56:32,se=w64?64:40; uint32_t end=0,tb=0,te=0;
  for(unsigned i=0;i<pn;i++){ size_t o=ph+i*pe; if(rd(o,4)!=PT_LOAD) continue; uint32_t fl=rd(o+(w64?4:24),4); uint64_t off=rd(o+(w64?8:4),w64?8:4),va=rd(o+(w64?16:8),w64?8:4),fs=rd(o+(w64?32:16),w64?8:4),ms=rd(o+(w64?40:20),w64?8:4); if(va+ms>size) throw std::runtime_error("image too large"); memcpy(mem+va,b.data()+off,fs); if(va+ms>end) end=va+ms; if(fl&PF_X) tb=va,te=va+ms; else if(!(fl&PF_W)&&va+ms>ro_end) ro_end=va+ms; if((fl&PF_X)&&va+ms>ro_end) ro_end=va+ms; }
  for(unsigned i=0;i<sn;i++){ size_t o=sh+i*se; if(rd(o+4,4)!=SHT_SYMTAB) continue; uint64_t off=rd(o+(w64?24:16),w64?8:4),n=rd(o+(w64?32:20),w64?8:4); unsigned link=rd(o+(w64?40:24),4); uint64_t so=rd(sh+link*se+(w64?24:16),w64?8:4); unsigned e=w64?24:16; for(uint64_t q=0;q+e<=n;q+=e){ uint32_t nm=rd(off+q,4); unsigned info=b[off+q+(w64?4:12)]; uint64_t v=rd(off+q+(w64?8:4),w64?8:4); if(info>>4&&nm) syms[(const char*)&b[so+nm]]=v; } }
  base=tb; code.resize((te-tb)/4); for(uint32_t a=tb;a+4<=te;a+=4){ uint32_t w=0; for(int i=0;i<4;i++) w|=(uint32_t)mem[a+i]<<8*(be?3-i:i); decode(w,code[(a-tb)/4]); }
  stop=sym("g_stop"); if(!stop) throw std::runtime_error("image without runtime");
  sp0=size-(1u<<20); h1=sp0-(8u<<20); h0=h1-(24u<<20); hp=h0; heap=(end+0xffff)&~0xffffu; heap_end=h0-4096; memset(r,0,sizeof r); }
Guest::~Guest(){ if(mem) munmap(mem,size); }
uint32_t Guest::sym(const std::string&n) const { auto i=syms.find(n); return i==syms.end()?0:i->second; }
void Guest::fault(uint32_t pc,const char*w,uint64_t a){ std::string fn="?"; uint32_t best=0; for(auto&s:syms) if(s.second<=pc&&s.second>=best&&s.second>=base){ best=s.second; fn=s.first; } char t[300]; snprintf(t,sizeof t,"%s (address %llx) in %s+0x%x on the emulated machine",w,(unsigned long long)a,fn.c_str(),pc-best); throw std::runtime_error(t); }
void Guest::decode(uint32_t w,In&i){ unsigned op=w>>26,rs=w>>21&31,rt=w>>16&31,rd=w>>11&31,sa=w>>6&31,fn=w&63; int32_t im=(int16_t)w; i={BAD,(uint8_t)rs,(uint8_t)rt,(uint8_t)rd,im}; auto S=[&](uint8_t o){ i.op=o; }; auto K=[&](uint8_t o,int32_t v){ i.op=o; i.imm=v; };
  if(!w){ S(NOP); return; }
  switch(op){
  case 0: switch(fn){ case 0: K(SLL,sa); break; case 2: K(rs&1?ROTR:SRL,sa); break; case 3: K(SRA,sa); break; case 4: S(SLLV); break; case 6: S(sa&1?ROTRV:SRLV); break; case 7: S(SRAV); break; case 8: S(JR); break; case 9: S(JALR); break; case 0xa: S(MOVZ); break; case 0xb: S(MOVN); break; case 0xc: K(SYS,w>>6&0xfffff); break; case 0xf: S(NOP); break;
    case 0x10: S(MFHI); break; case 0x11: S(MTHI); break; case 0x12: S(MFLO); break; case 0x13: S(MTLO); break; case 0x14: S(DSLLV); break; case 0x16: S(sa&1?DROTRV:DSRLV); break; case 0x17: S(DSRAV); break; case 0x18: S(MULT); break; case 0x19: S(MULTU); break; case 0x1a: S(DIV); break; case 0x1b: S(DIVU); break; case 0x1c: S(DMULT); break; case 0x1d: S(DMULTU); break; case 0x1e: S(DDIV); break; case 0x1f: S(DDIVU); break;
    case 0x21: S(ADDU); break; case 0x23: S(SUBU); break; case 0x24: S(AND); break; case 0x25: S(OR); break; case 0x26: S(XOR); break; case 0x27: S(NOR); break; case 0x2a: S(SLT); break; case 0x2b: S(SLTU); break; case 0x2d: S(DADDU); break; case 0x2f: S(DSUBU); break; case 0x34: S(TRAP_EQ); break; case 0x36: S(TRAP_NE); break;
    case 0x38: K(DSLL,sa); break; case 0x3a: K(rs&1?DROTR:DSRL,sa); break; case 0x3b: K(DSRA,sa); break; case 0x3c: K(DSLL,sa+32); break; case 0x3e: K(rs&1?DROTR:DSRL,sa+32); break; case 0x3f: K(DSRA,sa+32); break; } break;
  case 1: switch(rt){ case 0: S(BLTZ); break; case 1: S(BGEZ); break; case 0x10: S(BLTZAL); break; case 0x11: S(BGEZAL); break; } break;
  case 2: K(J,w&0x3ffffff); break; case 3: K(JAL,w&0x3ffffff); break; case 4: S(BEQ); break; case 5: S(BNE); break; case 6: S(BLEZ); break; case 7: S(BGTZ); break; case 9: S(ADDIU); break; case 0xa: S(SLTI); break; case 0xb: S(SLTIU); break; case 0xc: K(ANDI,w&0xffff); break; case 0xd: K(ORI,w&0xffff); break; case 0xe: K(XORI,w&0xffff); break; case 0xf: K(LUI,(int32_t)(w<<16)); break; case 0x19: S(DADDIU); break; case 0x1a: S(LDL); break; case 0x1b: S(LDR); break;
  case 0x1c: switch(fn){ case 0: S(MADD); break; case 1: S(MADDU); break; case 2: S(MUL); break; case 4: S(MSUB); break; case 5: S(MSUBU); break; case 0x20: S(CLZ); break; case 0x21: S(CLO); break; case 0x24: S(DCLZ); break; case 0x25: S(DCLO); break; } break;
  case 0x1f: { auto X=[&](uint8_t o,unsigned pos,unsigned sz){ i.op=o; i.rd=pos; i.imm=sz; }; switch(fn){ case 0: X(EXT,sa,rd+1); break; case 1: X(DEXT,sa,rd+33); break; case 2: X(DEXT,sa+32,rd+1); break; case 3: X(DEXT,sa,rd+1); break; case 4: X(INS,sa,rd-sa+1); break; case 5: X(DINS,sa,rd+32-sa+1); break; case 6: X(DINS,sa+32,rd-sa+1); break; case 7: X(DINS,sa,rd-sa+1); break; case 0x20: S(sa==2?WSBH:sa==0x10?SEB:sa==0x18?SEH:BAD); break; case 0x24: S(sa==2?DSBH:sa==5?DSHD:BAD); break; } break; }
  case 0x20: S(LB); break; case 0x21: S(LH); break; case 0x22: S(LWL); break; case 0x23: S(LW); break; case 0x24: S(LBU); break; case 0x25: S(LHU); break; case 0x26: S(LWR); break; case 0x27: S(LWU); break; case 0x28: S(SB); break; case 0x29: S(SH); break; case 0x2a: S(SWL); break; case 0x2b: S(SW); break; case 0x2c: S(SDL); break; case 0x2d: S(SDR); break; case 0x2e: S(SWR); break; case 0x33: S(NOP); break; case 0x37: S(LD); break; case 0x3f: S(SD); break; } }
void Guest::range(uint32_t pc,uint64_t a,uint64_t n,bool wr){ if(!n) return; if(a<4096||a>=size||n>size-a) fault(pc,wr?"write outside memory":"read outside memory",a); if(wr&&a<ro_end) fault(pc,"write to constant data",a); }
uint32_t Guest::galloc(uint32_t n){ uint32_t c=n<16?16:(n+15)&~15u; auto&v=freed[c]; uint32_t a; if(!v.empty()){ a=v.back(); v.pop_back(); } else { if(c+32>heap_end-heap) return 0; a=heap+16; heap+=c+32; } memset(mem+a-16,0xfd,16); memset(mem+a,0xa5,n); memset(mem+a+n,0xfd,c-n+16); blocks[a]=n; return a; }
void Guest::gfree(uint32_t a){ if(!a) return; auto i=blocks.find(a); if(i==blocks.end()) throw std::runtime_error("release of a block that is not live on the emulated machine"); uint32_t n=i->second,c=n<16?16:(n+15)&~15u; for(uint32_t k=a-16;k<a;k++) if(mem[k]!=0xfd) throw std::runtime_error("write before a block on the emulated machine"); for(uint32_t k=a+n;k<a+c+16;k++) if(mem[k]!=0xfd) throw std::runtime_error("write behind a block on the emulated machine"); memset(mem+a,0x5a,c); blocks.erase(i); freed[c].push_back(a); }
void Guest::svc(unsigned n,uint32_t pc){ auto A=[&](int i){ return w64?r[4+i]:(uint64_t)(uint32_t)r[4+i]; }; auto R=[&](uint64_t v){ r[2]=w64?v:sx((uint32_t)v); };
  switch(n){ case 1: { uint64_t q=A(0); R(q>=(200u<<20)?0:galloc((uint32_t)q)); break; } case 2: gfree((uint32_t)A(0)); break;
    case 3: { uint64_t d=A(0),s=A(1),k=A(2); range(pc,d,k,true); range(pc,s,k,false); if(k&&d!=s&&d<s+k&&s<d+k) fault(pc,"memcpy between overlapping regions",d); if(k) memmove(mem+d,mem+s,k); R(d); break; } case 4: { uint64_t d=A(0),s=A(1),k=A(2); range(pc,d,k,true); range(pc,s,k,false); if(k) memmove(mem+d,mem+s,k); R(d); break; }
    case 5: { uint64_t d=A(0),k=A(2); range(pc,d,k,true); if(k) memset(mem+d,(int)A(1),k); R(d); break; } case 6: { uint64_t a=A(0),b=A(1),k=A(2); range(pc,a,k,false); range(pc,b,k,false); int c=k?memcmp(mem+a,mem+b,k):0; R(c<0?~0ull:c>0); break; }
    case 7: { range(pc,A(0),1,false); fault((uint32_t)r[31],(std::string("assertion failed: ")+(const char*)(mem+A(0))).c_str()); } case 8: fault((uint32_t)r[31],"abort"); case 9: { auto i=blocks.find((uint32_t)A(0)); if(i==blocks.end()) fault(pc,"realloc of a block that is not live",A(0)); R(i->second); break; } default: fault(pc,"unknown service",n); } }
template<bool BE,int N> static inline uint64_t ldn(const uint8_t*p){ if(N==1) return *p; if(N==2){ uint16_t v; memcpy(&v,p,2); return BE?__builtin_bswap16(v):v; } if(N==4){ uint32_t v; memcpy(&v,p,4); return BE?__builtin_bswap32(v):v; } uint64_t v; memcpy(&v,p,8); return BE?__builtin_bswap64(v):v; }
template<bool BE,int N> static inline void stn(uint8_t*p,uint64_t x){ if(N==1){ *p=x; } else if(N==2){ uint16_t v=x; if(BE) v=__builtin_bswap16(v); memcpy(p,&v,2); } else if(N==4){ uint32_t v=x; if(BE) v=__builtin_bswap32(v); memcpy(p,&v,4); } else { uint64_t v=BE?__builtin_bswap64(x):x; memcpy(p,&v,8); } }
void Guest::run(uint32_t start){ uint64_t*R=r; uint32_t pc=start,npc=start+4; const uint32_t tb=base,tn=code.size()*4; const bool BE=be,W=w64; const In*C=code.data(); uint8_t*M=mem; const uint64_t top=size; uint64_t left=budget;
  #define EA uint64_t a=W?R[i.rs]+(int64_t)i.imm:(uint64_t)(uint32_t)(R[i.rs]+(int64_t)i.imm)
  #define LDA(n) EA; if(a-4096>top-4096-n) fault(pc,"read outside memory",a); if(a&(n-1)) fault(pc,"read at an unaligned address",a)
  #define STA(n) EA; if(a-ro_end>top-ro_end-n||a<ro_end) fault(pc,"write outside memory or to constant data",a); if(a&(n-1)) fault(pc,"write at an unaligned address",a)
  #define LV(n) (BE?ldn<true,n>(M+a):ldn<false,n>(M+a))
  #define SV(n,v) (BE?stn<true,n>(M+a,v):stn<false,n>(M+a,v))
  #define SETT(v) { R[i.rt]=(v); break; }
  #define SETD(v) { R[i.rd]=(v); break; }
  #define BR(c) { if(c){ nx=npc+(uint32_t)(i.imm<<2); } break; }
  const uint64_t ro_end=this->ro_end;
  for(;;){ if(!left--) fault(pc,"does not terminate"); if(pc-tb>=tn||pc&3) fault(pc,"jump outside the program",pc); const In&i=C[(pc-tb)>>2]; uint32_t nx=npc+4; R[0]=0;
    switch(i.op){
    case BAD: fault(pc,"unknown instruction"); case NOP: break; case SYS: if(!i.imm){ executed+=budget-left; return; } svc(i.imm,pc); break; case TRAP_EQ: if(R[i.rs]==R[i.rt]) fault(pc,"trap (division by zero)"); break; case TRAP_NE: if(R[i.rs]!=R[i.rt]) fault(pc,"trap"); break;
    case SLL: SETD(sx((uint32_t)R[i.rt]<<i.imm)) case SRL: SETD(sx((uint32_t)R[i.rt]>>i.imm)) case SRA: SETD((uint64_t)(int64_t)((int32_t)R[i.rt]>>i.imm)) case ROTR: { uint32_t v=R[i.rt]; SETD(sx(i.imm?v>>i.imm|v<<(32-i.imm):v)) }
    case SLLV: SETD(sx((uint32_t)R[i.rt]<<(R[i.rs]&31))) case SRLV: SETD(sx((uint32_t)R[i.rt]>>(R[i.rs]&31))) case SRAV: SETD((uint64_t)(int64_t)((int32_t)R[i.rt]>>(R[i.rs]&31))) case ROTRV: { uint32_t v=R[i.rt]; unsigned s=R[i.rs]&31; SETD(sx(s?v>>s|v<<(32-s):v)) }
    case JR: nx=(uint32_t)R[i.rs]; break; case JALR: { uint32_t t=R[i.rs]; R[i.rd]=sx(pc+8); nx=t; break; }
    case MFHI: SETD(hi) case MFLO: SETD(lo) case MTHI: hi=R[i.rs]; break; case MTLO: lo=R[i.rs]; break;
    case MULT: { int64_t p=(int64_t)(int32_t)R[i.rs]*(int32_t)R[i.rt]; lo=sx((uint32_t)p); hi=sx((uint32_t)(p>>32)); break; } case MULTU: { uint64_t p=(uint64_t)(uint32_t)R[i.rs]*(uint32_t)R[i.rt]; lo=sx((uint32_t)p); hi=sx((uint32_t)(p>>32)); break; }
    case DIV: { int32_t a=R[i.rs],b=R[i.rt]; if(b&&!(b==-1&&a==INT32_MIN)){ lo=sx(a/b); hi=sx(a%b); } break; } case DIVU: { uint32_t a=R[i.rs],b=R[i.rt]; if(b){ lo=sx(a/b); hi=sx(a%b); } break; }
    case ADDU: SETD(sx((uint32_t)R[i.rs]+(uint32_t)R[i.rt])) case SUBU: SETD(sx((uint32_t)R[i.rs]-(uint32_t)R[i.rt])) case AND: SETD(R[i.rs]&R[i.rt]) case OR: SETD(R[i.rs]|R[i.rt]) case XOR: SETD(R[i.rs]^R[i.rt]) case NOR: SETD(~(R[i.rs]|R[i.rt])) case SLT: SETD((int64_t)R[i.rs]<(int64_t)R[i.rt]) case SLTU: SETD(R[i.rs]<R[i.rt])
    case MOVZ: if(!R[i.rt]) R[i.rd]=R[i.rs]; break; case MOVN: if(R[i.rt]) R[i.rd]=R[i.rs]; break;
    case BLTZ: BR((int64_t)R[i.rs]<0) case BGEZ: BR((int64_t)R[i.rs]>=0) case BLTZAL: { bool c=(int64_t)R[i.rs]<0; R[31]=sx(pc+8); BR(c) } case BGEZAL: { bool c=(int64_t)R[i.rs]>=0; R[31]=sx(pc+8); BR(c) }
    case J: nx=(npc&0xf0000000u)|(uint32_t)i.imm<<2; break; case JAL: R[31]=sx(pc+8); nx=(npc&0xf0000000u)|(uint32_t)i.imm<<2; break; case BEQ: BR(R[i.rs]==R[i.rt]) case BNE: BR(R[i.rs]!=R[i.rt]) case BLEZ: BR((int64_t)R[i.rs]<=0) case BGTZ: BR((int64_t)R[i.rs]>0)
    case ADDIU: SETT(sx((uint32_t)R[i.rs]+(uint32_t)i.imm)) case SLTI: SETT((int64_t)R[i.rs]<(int64_t)i.imm) case SLTIU: SETT(R[i.rs]<(uint64_t)(int64_t)i.imm) case ANDI: SETT(R[i.rs]&(uint32_t)i.imm) case ORI: SETT(R[i.rs]|(uint32_t)i.imm) case XORI: SETT(R[i.rs]^(uint32_t)i.imm) case LUI: SETT(sx((uint32_t)i.imm))
    case LB: { LDA(1); SETT((uint64_t)(int64_t)(int8_t)M[a]) } case LBU: { LDA(1); SETT(M[a]) } case LH: { LDA(2); SETT((uint64_t)(int64_t)(int16_t)LV(2)) } case LHU: { LDA(2); SETT(LV(2)) } case LW: { LDA(4); SETT(sx((uint32_t)LV(4))) } case LWU: { LDA(4); SETT((uint32_t)LV(4)) } case LD: { LDA(8); SETT(LV(8)) }
    case SB: { STA(1); M[a]=R[i.rt]; break; } case SH: { STA(2); SV(2,R[i.rt]); break; } case SW: { STA(4); SV(4,R[i.rt]); break; } case SD: { STA(8); SV(8,R[i.rt]); break; }
    // parts of unaligned words: bytes from the address to the end of its word (first) or from its start to the address (second)
    case LWL: case LWR: case LDL: case LDR: { EA; unsigned N=i.op==LWL||i.op==LWR?4:8; bool left_=i.op==LWL||i.op==LDL; range(pc,a,1,false); unsigned o=a&(N-1); bool up=left_==BE; unsigned n=up?N-o:o+1; uint64_t s=up?a:a-o; uint64_t v=0; for(unsigned k=0;k<n;k++) v|=(uint64_t)M[s+k]<<8*(BE?n-1-k:k); uint64_t old=R[i.rt]; uint64_t m=n==8?~0ull:(1ull<<8*n)-1; unsigned sh=left_?8*(N-n):0; v=(old&~(m<<sh))|v<<sh; if(N==4) v=left_||n==4?sx((uint32_t)v):(W?sx((uint32_t)v):sx((uint32_t)v)); R[i.rt]=v; break; }
    case SWL: case SWR: case SDL: case SDR: { EA; unsigned N=i.op==SWL||i.op==SWR?4:8; bool left_=i.op==SWL||i.op==SDL; unsigned o=a&(N-1); bool up=left_==BE; unsigned n=up?N-o:o+1; uint64_t s=up?a:a-o; range(pc,s,n,true); uint64_t v=R[i.rt]>>(left_?8*(N-n):0); for(unsigned k=0;k<n;k++) M[s+k]=v>>8*(BE?n-1-k:k); break; }
    case MUL: SETD(sx((uint32_t)R[i.rs]*(uint32_t)R[i.rt])) case MADD: case MADDU: case MSUB: case MSUBU: { uint64_t acc=(uint64_t)(uint32_t)hi<<32|(uint32_t)lo; uint64_t p=i.op==MADD||i.op==MSUB?(uint64_t)((int64_t)(int32_t)R[i.rs]*(int32_t)R[i.rt]):(uint64_t)(uint32_t)R[i.rs]*(uint32_t)R[i.rt]; acc=i.op==MADD||i.op==MADDU?acc+p:acc-p; lo=sx((uint32_t)acc); hi=sx((uint32_t)(acc>>32)); break; }
    case CLZ: { uint32_t v=R[i.rs]; SETD(v?__builtin_clz(v):32) } case CLO: { uint32_t v=~(uint32_t)R[i.rs]; SETD(v?__builtin_clz(v):32) } case DCLZ: { uint64_t v=R[i.rs]; SETD(v?__builtin_clzll(v):64) } case DCLO: { uint64_t v=~R[i.rs]; SETD(v?__builtin_clzll(v):64) }
    case EXT: { uint32_t v=R[i.rs]; v>>=i.rd; if(i.imm<32) v&=(1u<<i.imm)-1; SETT(sx(v)) } case INS: { uint32_t m=(i.imm<32?(1u<<i.imm)-1:~0u)<<i.rd; SETT(sx(((uint32_t)R[i.rt]&~m)|((uint32_t)R[i.rs]<<i.rd&m))) } case DEXT: { uint64_t v=R[i.rs]>>i.rd; if(i.imm<64) v&=(1ull<<i.imm)-1; SETT(v) } case DINS: { uint64_t m=(i.imm<64?(1ull<<i.imm)-1:~0ull)<<i.rd; SETT((R[i.rt]&~m)|(R[i.rs]<<i.rd&m)) }
    case WSBH: { uint32_t v=R[i.rt]; SETD(sx((v&0x00ff00ff)<<8|(v>>8&0x00ff00ff))) } case SEB: SETD((uint64_t)(int64_t)(int8_t)R[i.rt]) case SEH: SETD((uint64_t)(int64_t)(int16_t)R[i.rt]) case DSBH: { uint64_t v=R[i.rt]; SETD((v&0x00ff00ff00ff00ffull)<<8|(v>>8&0x00ff00ff00ff00ffull)) } case DSHD: { uint64_t v=R[i.rt]; SETD(v<<48|(v<<16&0x0000ffff00000000ull)|(v>>16&0x00000000ffff0000ull)|v>>48) }
    case DADDU: SETD(R[i.rs]+R[i.rt]) case DSUBU: SETD(R[i.rs]-R[i.rt]) case DADDIU: SETT(R[i.rs]+(int64_t)i.imm) case DSLL: SETD(R[i.rt]<<i.imm) case DSRL: SETD(R[i.rt]>>i.imm) case DSRA: SETD((uint64_t)((int64_t)R[i.rt]>>i.imm)) case DROTR: { uint64_t v=R[i.rt]; SETD(i.imm?v>>i.imm|v<<(64-i.imm):v) } case DSLLV: SETD(R[i.rt]<<(R[i.rs]&63)) case DSRLV: SETD(R[i.rt]>>(R[i.rs]&63)) case DSRAV: SETD((uint64_t)((int64_t)R[i.rt]>>(R[i.rs]&63))) case DROTRV: { uint64_t v=R[i.rt]; unsigned s=R[i.rs]&63; SETD(s?v>>s|v<<(64-s):v) }
    case DMULT: { __int128 p=(__int128)(int64_t)R[i.rs]*(int64_t)R[i.rt]; lo=(uint64_t)p; hi=(uint64_t)(p>>64); break; } case DMULTU: { unsigned __int128 p=(unsigned __int128)R[i.rs]*R[i.rt]; lo=(uint64_t)p; hi=(uint64_t)(p>>64); break; } case DDIV: { int64_t a=R[i.rs],b=R[i.rt]; if(b&&!(b==-1&&a==INT64_MIN)){ lo=a/b; hi=a%b; } break; } case DDIVU: { uint64_t a=R[i.rs],b=R[i.rt]; if(b){ lo=a/b; hi=a%b; } break; } }
    pc=npc; npc=nx; } }
uint64_t Guest::call(uint32_t fn,const std::vector<Arg>&a){ if(!fn) throw std::runtime_error("function missing from the image of the emulated machine"); for(int i=0;i<32;i++) r[i]=i>=16&&i<24?0x5a5a5a5a:sx(0xdeadbeefu); r[0]=0; budget=40000000000ull; uint64_t slot[40]; unsigned n=0;
  auto put=[&](unsigned k,uint64_t v){ slot[k]=v; }; if(w64){ for(auto&x:a) put(n++,x.k==0?sx((uint32_t)x.v):x.v); } else for(auto&x:a){ if(x.k==2){ n=(n+1)&~1u; put(n++,be?x.v>>32:x.v&0xffffffffu); put(n++,be?x.v&0xffffffffu:x.v>>32); } else put(n++,x.v); }
  unsigned regs=w64?8:4,ws=w64?8:4; uint32_t frame=((w64?(n>8?n-8:0):n)*ws+64+15)&~15u; uint32_t sp=sp0-frame; for(unsigned k=0;k<n;k++){ if(k<regs) r[4+k]=w64?slot[k]:sx((uint32_t)slot[k]); else { uint32_t p=sp+(w64?(k-8)*8:k*4); for(unsigned q=0;q<ws;q++) mem[p+q]=slot[k]>>8*(be?ws-1-q:q); } }
  r[29]=sx(sp); r[31]=sx(stop); run(fn); return w64?r[2]:(uint32_t)r[2]; }
uint64_t Guest::call64(uint32_t fn,const std::vector<Arg>&a){ call(fn,a); if(w64) return r[2]; uint64_t x=(uint32_t)r[2],y=(uint32_t)r[3]; return be?x<<32|y:y<<32|x; }
uint64_t Guest::word(uint32_t a) const { unsigned n=w64?8:4; uint64_t v=0; for(unsigned i=0;i<n;i++) v|=(uint64_t)mem[a+i]<<8*(be?n-1-i:i); return v; }
uint32_t Guest::room(size_t n,unsigned al){ uint32_t a=((hp+15)&~15u)+16+(al&15); if(n>h1-a-64) throw std::runtime_error("no room for the buffers on the emulated machine"); memset(mem+a-16,0xe7,16); memset(mem+a+n,0xe7,16); hp=a+n+16; guards.push_back({a,(uint32_t)n}); return a; }
uint32_t Guest::put(const void*p,size_t n,unsigned al){ uint32_t a=room(n,al); if(n) memcpy(mem+a,p,n); return a; }
void Guest::guard_check(){ for(auto&g:guards) for(int k=0;k<16;k++) if(mem[g.a-16+k]!=0xe7||mem[g.a+g.n+k]!=0xe7) throw std::runtime_error("write outside a buffer of the caller on the emulated machine"); }
