#include "engine.h"
#include "bind.h"
// under MemorySanitizer only the library variant is instrumented: arguments of the
// harness's own library calls are not to be judged
extern "C" void __attribute__((weak)) __msan_scoped_disable_interceptor_checks(void);
int main(int argc,char**argv){ if(__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks(); bind_init(); return engine_main(argc,argv); }
