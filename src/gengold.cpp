// development tool: writes golden.inc from the reference model (not from the library)
#include "../ref/ref.h"
#include "big.h"
#include <cstdio>
using namespace ref;
int main(int argc,char**argv){ // hash out_len length
  uint64_t len=strtoull(argv[3],0,10); unsigned ol=atoi(argv[2]); const uint8_t*p=big_region(); Bytes m(p,p+len); auto o=hash(argv[1]).run(0,Bytes(),m,ol,ol); printf("{\"%s\",%u,%llu,\"",argv[1],ol,(unsigned long long)len); for(u8 c:o) printf("%02x",c); puts("\"},"); }
