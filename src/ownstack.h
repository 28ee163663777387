#pragma once
#include <cstdint>
// vp_on_stack(top, function, eleven integer arguments): calls the function on a stack of our own
extern "C" uint64_t vp_on_stack(void*top,void*fn,const uint64_t*a);
asm(R"(.text
.globl vp_on_stack
vp_on_stack:
 push %rbp
 mov %rsp,%rbp
 push %rbx
 mov %rdi,%rsp
 mov %rsi,%rax
 mov %rdx,%rbx
 sub $8,%rsp
 push 80(%rbx)
 push 72(%rbx)
 push 64(%rbx)
 push 56(%rbx)
 push 48(%rbx)
 mov (%rbx),%rdi
 mov 8(%rbx),%rsi
 mov 16(%rbx),%rdx
 mov 24(%rbx),%rcx
 mov 32(%rbx),%r8
 mov 40(%rbx),%r9
 call *%rax
 mov %rbp,%rsp
 sub $8,%rsp
 pop %rbx
 pop %rbp
 ret
)");
