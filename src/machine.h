// Operation sequences over the whole public interface, executed against a library
// variant loaded as a shared object. Generation (mgen) is independent of execution (mexec).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
typedef std::vector<uint8_t> Bytes;
// fam: 1 block 2 hash 3 mac 4 stream 5 ae.  block: a=index, 1000+bs custom.  mac: kind 0 hmac(a) 1 omac(block a) 2 xcbc(block a) 3 native a.
// stream: kind 0..4 mode over block a, 9 native a.  ae: kind 0 eax over block a; kind 1 eax2 over stream (sk,a) and mac (mk,b)
struct Cfg { uint8_t fam=0,kind=0,sk=0,mk=0; uint16_t a=0,b=0; bool operator==(const Cfg&o)const{ return fam==o.fam&&kind==o.kind&&sk==o.sk&&mk==o.mk&&a==o.a&&b==o.b; } };
enum OpK:uint8_t { CREATE,RECREATE,DESTROY,TWEAK,ENC,DEC,HIN,HOUT,MIN,MTAG,MVERIFY,PRNG,HEADER,ATAG,AVERIFY,HALL,MALL,PBKDF2,SCRYPT,PADD,PREM,MEQ,WIPE,RANDOM,NOPK };
struct Op { uint8_t k=0,slot=0,inplace=0,mis=0; Cfg cfg; uint32_t rounds=0,n=0,iter=1; uint64_t N=0; uint32_t r=0,p=0; Bytes a,b,c; };
typedef std::vector<Op> Prog;
const unsigned NSLOT=6;
struct Exec;
// flags: 1 descriptors from the shared cache of the variant (call prepare first)
struct Variant { void*h; std::string name;
  Exec*(*create)(const Prog*,unsigned flags); int (*op)(Exec*,size_t i); // op: 0 done 1 the library reported failure 2 harness-level error (see err) 3 skipped
  const Bytes*(*out)(Exec*); const char*(*err)(Exec*); void (*finish)(Exec*); // destroys remaining objects and descriptors
  void (*prepare)(const Prog*); size_t (*owned)(Exec*); // owned: descriptors held by this execution
  void*(*hook)(); };
bool load_variant(Variant&v,const char*path,const char*name,std::string&err);
